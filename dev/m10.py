M='Archs/MIPS/CMipsInstruction.cpp'; MP='Archs/MIPS/MipsParser.cpp'; AP='Archs/ARM/ArmParser.cpp'; A='Archs/ARM/CArmInstruction.cpp'; T='Archs/ARM/CThumbInstruction.cpp'; S='Archs/SuperH/CShInstruction.cpp'
MO='Archs/MIPS/MipsOpcodes.cpp'; AO='Archs/ARM/ArmOpcodes.cpp'; TO='Archs/ARM/ThumbOpcodes.cpp'; SO='Archs/SuperH/ShOpcodes.cpp'
def m(x,f,*e): return ('C10',x,[(f,e[i],e[i+1]) for i in range(0,len(e),2)])
MUT={
 'sllv':m(1,MO,'{ "sllv",	"d,s",		MIPS_SPECIAL(0x04),				MA_MIPS1,	MO_RDT }','{ "sllv",	"d,s",		MIPS_SPECIAL(0x04),				MA_MIPS1,	MO_RST }'),
 'vfpusize':m(1,M,'if (opcodeData.vfpuSize & 2) encoding |= (1 << 15);','if (opcodeData.vfpuSize & 2) encoding |= (1 << 14);'),
 'mixed':m(1,M,'(registerData.vrt.num & 0x1F) << 16','(registerData.vrt.num & 0x0F) << 16'),
 'swlvariant':m(1,MO,'{ "swl",	"t,(s)",			MIPS_OP(0x2A),			MA_MIPS1|MA_EXRSP,','{ "swl",	"t,(s)",			MIPS_OP(0x2A),			MA_MIPS1,'),
 'mladm':m(1,AO,'{ "mlaCS",	"d1,s1,n1",				0x00200090,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_DM }','{ "mlaCS",	"d1,s1,n1",				0x00200090,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N }'),
 'andbic':m(1,A,'encoding ^= 0x1C00000;','encoding ^= 0x0C00000;'),
 'y':m(1,A,'if ((Opcode.flags & ARM_Y) && Vars.Opcode.y) encoding |= (1 << 6);','if ((Opcode.flags & ARM_X) && Vars.Opcode.y) encoding |= (1 << 6);'),
 'asr0':m(1,A,'else if (num == 0 && mode == ARM_SHIFT_ASR) mode = ARM_SHIFT_LSL;','else if (num == 0 && mode == ARM_SHIFT_ASR) mode = ARM_SHIFT_ASR;'),
 'armasl':m(1,AP,'stringValue == "lsl" || stringValue == "asl"','stringValue == "lsl"'),
 'flg':m(1,AP,'vars.PsrData.field = 8;\n		return','vars.PsrData.field = 9;\n		return'),
 'rlist':m(1,AP,'for (int i = reg.num; i <= reg2.num; i++)','for (int i = reg.num; i < reg2.num; i++)'),
 'hiasr':m(1,T,'if (Vars.rs.num > 0x7) encoding |= (1 << 6);','if (Vars.rs.num > 0x8) encoding |= (1 << 6);'),
 'blx':m(1,T,'num += num & 2;','num += num & 1;'),
 'pushpc':m(1,T,'if (Vars.rlist & 0xC000) encoding |= (1 << 8);','if (Vars.rlist & 0x4000) encoding |= (1 << 8);'),
 'shnm':m(1,S,'	case SHFMT_ND4:   // xxxx xxxx nnnn dddd\n		encoding |= (registerData.grt.num & 0xF) << 4;','	case SHFMT_ND4:   // xxxx xxxx nnnn dddd\n		encoding |= (registerData.grs.num & 0xF) << 4;'),
 'shbase':m(1,SO,'{ "mov.w",	"@s+,t",		0b0110000000000101','{ "mov.w",	"@s+,t",		0b0110000000000100'),
 'rspel':m(1,MP,'{ "3h", 7 }','{ "3h", 6 }'),
 'regnum':m(1,MP,'number.intValue() < numValues)','number.intValue() <= numValues)'),
 'order':m(1,AO,'	{ "adcCS",	"d0,n0,/#i",			0x02A00000','	{ "adcCS",	"d0,n0,/#i",			0x02B00000'),
 'swi':m(1,A,'bool needsShift = arch == AARCH_GBA || arch == AARCH_NDS;','bool needsShift = arch == AARCH_GBA;'),
 # quiet
 'q_pack':m(0,S,'uint16_t encoding = opcodeData.opcode.base;','uint16_t encoding = opcodeData.opcode.base;\n	auto nField = [&](int shift) { return (uint16_t)((registerData.grt.num & 0xF) << shift); };',
   '	case SHFMT_N:     // xxxx nnnn xxxx xxxx\n		encoding |= (registerData.grt.num & 0xF) << 8;','	case SHFMT_N:     // xxxx nnnn xxxx xxxx\n		encoding |= nField(8);'),
 'q_helper':m(0,T,'void CThumbInstruction::Encode() const\n{','static unsigned int hiReg(int num, int flag, int pos)\n{\n	unsigned int out = (num & 7) << pos;\n	if (num & 8) out += 1u << flag;\n	return out;\n}\n\nvoid CThumbInstruction::Encode() const\n{',
   '''				if (Vars.rs.num > 0x7) encoding |= (1 << 6);
				encoding |= ((Vars.rs.num & 0x7) << 3);''','''				encoding |= hiReg(Vars.rs.num, 6, 3);'''),
 'q_if':m(0,A,'''		if (num == 0 && mode == ARM_SHIFT_LSR) mode = ARM_SHIFT_LSL;
		else if (num == 0 && mode == ARM_SHIFT_ASR) mode = ARM_SHIFT_LSL;
		else if (num == 0 && mode == ARM_SHIFT_ROR) mode = ARM_SHIFT_LSL;
''','''		if (num == 0 && (mode == ARM_SHIFT_LSR || mode == ARM_SHIFT_ASR || mode == ARM_SHIFT_ROR))
			mode = ARM_SHIFT_LSL;
'''),
 'q_tern':m(0,M,'''	if (opcodeData.opcode.flags & MO_VFPU)
		encodeVfpu();
	else
		encodeNormal();''','''	bool vector = (opcodeData.opcode.flags & MO_VFPU) != 0;
	if (!vector)
	{
		encodeNormal();
		return;
	}
	encodeVfpu();'''),
 'q_table':m(0,AP,'''	if (stringValue == "lsl" || stringValue == "asl")
		vars.Shift.Type = 0;
	else if (stringValue == "lsr")
		vars.Shift.Type = 1;
	else if (stringValue == "asr")
		vars.Shift.Type = 2;
	else if (stringValue == "ror")
		vars.Shift.Type = 3;
	else if (stringValue == "rrx")
		vars.Shift.Type = 4;
	else 
		return false;
''','''	static const struct { const char *name; int type; } shiftNames[] = {
		{ "lsl", 0 }, { "asl", 0 }, { "lsr", 1 }, { "asr", 2 }, { "ror", 3 }, { "rrx", 4 },
	};
	bool known = false;
	for (const auto &entry : shiftNames)
	{
		if (stringValue == entry.name)
		{
			vars.Shift.Type = entry.type;
			known = true;
			break;
		}
	}
	if (!known)
		return false;
'''),
 'q_rows':m(0,SO,'''	{ "mov.b",	"s,@-t",		0b0010000000000100, SHFMT_NM,	SH_SUPERH1, 0 },
	{ "mov.w",	"s,@-t",		0b0010000000000101, SHFMT_NM,	SH_SUPERH1, 0 },
''','''	{ "mov.w",	"s,@-t",		0b0010000000000101, SHFMT_NM,	SH_SUPERH1, 0 },
	{ "mov.b",	"s,@-t",		0b0010000000000100, SHFMT_NM,	SH_SUPERH1, 0 },
'''),
 'q_list':m(0,AP,'''			for (int i = reg.num; i <= reg2.num; i++)
			{
				dest |= (1 << i);
			}
''','''			int i = reg.num;
			while (i < reg2.num + 1)
			{
				dest |= 1 << i;
				++i;
			}
'''),
 'q_masks':m(0,M,'if (registerData.ps2vrt.num != -1) encoding |= (registerData.ps2vrt.num << 16);','if (registerData.ps2vrt.num != -1) encoding |= MIPS_RT(registerData.ps2vrt.num);'),
}
