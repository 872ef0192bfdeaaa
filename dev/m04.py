D='Commands/CDirectiveData.cpp'
MUT={
 'mutpos':('C04',1,[('Commands/CDirectiveFile.h','	int64_t position;\n','	mutable int64_t position;\n'),('Commands/CDirectiveFile.cpp','	case Physical:\n		g_fileManager->seekPhysical(position);','	case Physical:\n		position &= 0xFFFFFFFF;\n		g_fileManager->seekPhysical(position);')]),
 'constcast':('C04',1,[('Commands/CDirectiveFile.cpp','void CDirectiveIncbin::Encode() const\n{','void CDirectiveIncbin::Encode() const\n{\n	const_cast<CDirectiveIncbin*>(this)->size = 0;')]),
 'label':('C04',1,[('Commands/CAssemblerLabel.cpp','void CAssemblerLabel::writeSymData(SymbolData& symData) const\n{','void CAssemblerLabel::writeSymData(SymbolData& symData) const\n{\n	label->setValue(label->getValue() & 0xFFFFFFFF);')]),
 'alloc':('C04',1,[('Commands/CDirectiveArea.cpp','void CDirectiveArea::Encode() const\n{','void CDirectiveArea::Encode() const\n{\n	if (shared) Allocations::forgetArea(fileID, position, areaSize);')]),
 'alloc2':('C04',1,[('Commands/CDirectiveArea.cpp','void CDirectiveArea::writeSymData(SymbolData& symData) const\n{','void CDirectiveArea::writeSymData(SymbolData& symData) const\n{\n	Allocations::clearSubAreas();')]),
 'pool':('C04',1,[('Archs/ARM/Pool.cpp','void ArmPoolCommand::Encode() const\n{','void ArmPoolCommand::Encode() const\n{\n	Allocations::setPool(0, 0, 4);')]),
 'data':('C04',1,[('Archs/ARM/CArmInstruction.h','	ArmOpcodeVariables Vars;','	mutable ArmOpcodeVariables Vars;'),('Archs/ARM/CArmInstruction.cpp','void CArmInstruction::Encode() const\n{','void CArmInstruction::Encode() const\n{\n	if (Vars.ImmediateBitLen == 32) Vars.Immediate = Vars.OriginalImmediate;')]),
 # quiet
 'r1':('C04',0,[('Commands/CDirectiveFile.cpp','void CDirectiveIncbin::Encode() const\n{','void CDirectiveIncbin::Encode() const\n{\n	int64_t n = size; n++; (void)n;')]),
 'r2':('C04',0,[('Commands/CDirectiveArea.cpp','		unsigned char buffer[64];\n		memset(buffer,fillValue,64);','		unsigned char buffer[64];\n		for (int i = 0; i < 64; i++)\n			buffer[i] = (unsigned char) fillValue;')]),
}
