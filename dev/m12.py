F='Core/FileManager.cpp'; B='Util/ByteArray.h'; L='Core/ELF/ElfFile.cpp'; A='Archs/Architecture.cpp'
def m(x,f,a,b): return ('C12',x,[(f,a,b)])
MUT={
 'swap64':m(1,F,'((value & 0xFF000000000000) >> 40)','((value & 0xFF000000000000) >> 24)'),
 'swap64b':m(1,F,'((value & 0xFF0000) << 24)','((value & 0xFF00) << 24)'),
 'swap32':m(1,F,'((value & 0xFF0000) >> 8)','((value & 0xFF0000) >> 16)'),
 'wr64noswap':m(1,F,'		data = swapEndianness64(data);','		data = swapEndianness32(data);'),
 'wr64len':m(1,F,'	return write(&data,8);','	return write(&data,4);'),
 'wr16cond':m(1,F,'	if (endianness != ownEndianness)\n		data = swapEndianness16(data);','	if (endianness == Endianness::Big && data > 0xFF)\n		data = swapEndianness16(data);'),
 'getbig':m(1,B,'return d[pos+3] | (d[pos+2] << 8) | (d[pos+1] << 16) | (d[pos+0] << 24);','return d[pos+3] | (d[pos+2] << 8) | (d[pos+0] << 16) | (d[pos+1] << 24);'),
 'replbig':m(1,B,'			d[pos+0] = (w >> 24) & 0xFF;\n			d[pos+1] = (w >> 16) & 0xFF;','			d[pos+0] = (w >> 16) & 0xFF;\n			d[pos+1] = (w >> 24) & 0xFF;'),
 'elfoff':m(1,L,'data.replaceDoubleWord(pos + 0x1C, header.p_align, endianness);','data.replaceDoubleWord(pos + 0x18, header.p_align, endianness);'),
 'elfread':m(1,L,'header.sh_info      = data.getDoubleWord(pos + 0x1C, endianness);','header.sh_info      = data.getDoubleWord(pos + 0x1C);'),
 'elfsym':m(1,L,'symbol.st_shndx = data.getWord(pos + 0x0E, endianness);','symbol.st_shndx = data.getWord(pos + 0x0E, Endianness::Little);'),
 'elffield':m(1,L,'data.replaceWord(pos + 0x2A, fileHeader.e_phentsize, endianness);','data.replaceWord(pos + 0x2A, fileHeader.e_shentsize, endianness);'),
 'msb':m(1,'Core/ELF/ElfFile.h','== ELFDATA2MSB ?','!= ELFDATA2LSB && fileHeader.e_machine == EM_MIPS ?'),
 'relpatch':m(1,'Core/ELF/ElfRelocator.cpp','action.newValue, elf->getEndianness());','action.newValue);'),
 'rsp':m(1,'Archs/MIPS/Mips.h','Version == MARCH_N64 || Version == MARCH_RSP ?','Version == MARCH_N64 ?'),
 'armbig':m(1,'Archs/ARM/Arm.h','version == AARCH_BIG ?','version == AARCH_LITTLE ?'),
 'encapply':m(1,A,'void ArchitectureCommand::Encode() const\n{\n	g_fileManager->setEndianness(endianness);','void ArchitectureCommand::Encode() const\n{\n'),
 'valapply':m(1,A,'	g_fileManager->setEndianness(endianness);\n	return false;','	if (state.passes == 0)\n		g_fileManager->setEndianness(endianness);\n	return false;'),
 'ctorlive':m(1,A,'	this->endianness = Architecture::current().getEndianness();','	this->endianness = g_fileManager->getEndianness();'),
 'setlate':('C12',1,[('Parser/DirectivesParser.cpp','	case DIRECTIVE_MIPS_N64:\n		Mips.SetVersion(MARCH_N64);\n		return std::make_unique<ArchitectureCommand>(".n64", "");','	case DIRECTIVE_MIPS_N64: {\n		auto r = std::make_unique<ArchitectureCommand>(".n64", "");\n		Mips.SetVersion(MARCH_N64);\n		return r; }')]),
 'unit':m(1,'Commands/CDirectiveData.cpp','	case EncodingMode::U64:\n	case EncodingMode::Double:\n		for (auto value: normalData)\n		{\n			g_fileManager->writeU64((uint64_t)value);','	case EncodingMode::U64:\n	case EncodingMode::Double:\n		for (auto value: normalData)\n		{\n			g_fileManager->writeU64((uint32_t)value);'),
 'rawnum':m(1,'Commands/CDirectiveData.cpp','			g_fileManager->writeU16((uint16_t)value);','			{ uint16_t v = value; g_fileManager->write(&v, 2); }'),
 # quiet
 'q_loop':m(0,F,'	if (endianness != ownEndianness)\n		data = swapEndianness32(data);\n\n	return write(&data,4);','	uint8_t bytes[4];\n	for (int i = 0; i < 4; i++)\n		bytes[endianness == Endianness::Big ? 3 - i : i] = (data >> (8 * i)) & 0xFF;\n	return write(bytes,4);'),
 'q_swap':m(0,F,'	return ((value & 0xFF) << 24) | ((value & 0xFF00) << 8) | ((value & 0xFF0000) >> 8) | ((value & 0xFF000000) >> 24);','	uint32_t r = 0;\n	for (int i = 0; i < 4; i++)\n	{\n		r = (r << 8) | (value & 0xFF);\n		value >>= 8;\n	}\n	return r;'),
 'q_swap64':m(0,F,'	return ((value & 0xFF) << 56) | ((value & 0xFF00) << 40) | ((value & 0xFF0000) << 24) | ((value & 0xFF000000) << 8) |\n	((value & 0xFF00000000) >> 8) | ((value & 0xFF0000000000) >> 24) |\n	((value & 0xFF000000000000) >> 40) | ((value & 0xFF00000000000000) >> 56);','	uint64_t lo = value & 0xFFFFFFFF;\n	uint64_t hi = value >> 32;\n	auto s = [](uint64_t v) -> uint64_t { return ((v & 0xFF) << 24) | ((v & 0xFF00) << 8) | ((v & 0xFF0000) >> 8) | ((v & 0xFF000000) >> 24); };\n	return (s(lo) << 32) | s(hi);'),
 'q_builtin':m(0,F,'	return ((value & 0xFF) << 8) | ((value & 0xFF00) >> 8);','	return __builtin_bswap16(value);'),
 'q_get':m(0,B,'		if (endianness == Endianness::Little)\n		{\n			return d[pos+0] | (d[pos+1] << 8);\n		} else {\n			return d[pos+1] | (d[pos+0] << 8);\n		}','		size_t lo = endianness == Endianness::Little ? 0 : 1;\n		return d[pos+lo] + 256 * d[pos+1-lo];'),
 'q_repl':m(0,B,'			d[pos+0] = w & 0xFF;\n			d[pos+1] = (w >> 8) & 0xFF;\n			d[pos+2] = (w >> 16) & 0xFF;\n			d[pos+3] = (w >> 24) & 0xFF;','			for (int i = 0; i < 4; i++)\n				replaceByte(pos+i, (byte)(w >> (i*8)));'),
 'q_repl2':m(0,B,'			d[pos+0] = (w >> 24) & 0xFF;\n			d[pos+1] = (w >> 16) & 0xFF;\n			d[pos+2] = (w >> 8) & 0xFF;\n			d[pos+3] = w & 0xFF;','			unsigned char* q = d + pos + 4;\n			while (q != d + pos)\n			{\n				*--q = w & 0xFF;\n				w >>= 8;\n			}'),
 'q_elf':m(0,L,'	data.replaceDoubleWord(pos + 0x00, header.sh_name, endianness);\n	data.replaceDoubleWord(pos + 0x04, header.sh_type, endianness);','	auto put = [&](size_t o, unsigned int v) { data.replaceDoubleWord(pos + o, v, endianness); };\n	put(0, header.sh_name);\n	put(4, header.sh_type);'),
 'q_arch':m(0,'Archs/MIPS/Mips.h','		return Version == MARCH_N64 || Version == MARCH_RSP ? Endianness::Big : Endianness::Little;','		switch (Version)\n		{\n		case MARCH_N64:\n		case MARCH_RSP:\n			return Endianness::Big;\n		default:\n			return Endianness::Little;\n		}'),
 'q_dir':m(0,'Parser/DirectivesParser.cpp','	case DIRECTIVE_MIPS_RSP:\n		Mips.SetVersion(MARCH_RSP);\n		return std::make_unique<ArchitectureCommand>(".rsp", "");\n	}\n\n	return nullptr;','	case DIRECTIVE_MIPS_RSP:\n		{\n			auto make = [](MipsArchType t, const char *n) { Mips.SetVersion(t); return std::make_unique<ArchitectureCommand>(n, ""); };\n			return make(MARCH_RSP, ".rsp");\n		}\n	}\n\n	return nullptr;'),
 'q_enc':m(0,'Commands/CDirectiveData.cpp','		for (auto value: normalData)\n		{\n			g_fileManager->writeU16((uint16_t)value);\n		}','		for (size_t i = 0; i < normalData.size(); i++)\n			g_fileManager->writeU16((uint16_t)(normalData[i] & 0xFFFF));'),
}
