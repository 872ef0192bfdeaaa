M='Archs/MIPS/CMipsInstruction.cpp'; A='Archs/ARM/CArmInstruction.cpp'; T='Archs/ARM/CThumbInstruction.cpp'; S='Archs/SuperH/CShInstruction.cpp'
MO='Archs/MIPS/MipsOpcodes.cpp'; AO='Archs/ARM/ArmOpcodes.cpp'; TO='Archs/ARM/ThumbOpcodes.cpp'
def m(x,f,*e): return ('C09',x,[(f,e[i],e[i+1]) for i in range(0,len(e),2)])
MUT={
 'mbranch':m(1,M,'if (num >= 0x20000 || num < (-0x20000))','if (num > 0x20000 || num < (-0x20000))'),
 'malign':m(1,M,'if (num & 3)\n','if (num & 1)\n'),
 'mrsp':m(1,M,'immediateData.primary.value & ((1 << shift) - 1)','immediateData.primary.value & ((1 << shift) - 2)'),
 'mcache':m(1,M,'(unsigned int)immediateData.secondary.value > 0x1f','(unsigned int)immediateData.secondary.value > 0x3f'),
 'abranch':m(1,A,'Vars.Immediate >= 0x2000000 ||','Vars.Immediate > 0x2000000 ||'),
 'aabs':m(1,A,'if (abs(Vars.Immediate) >= (1 << Vars.ImmediateBitLen))','if (abs(Vars.Immediate) > (1 << Vars.ImmediateBitLen))'),
 'aeven':m(1,A,'check >= (unsigned int)(1 << Vars.ImmediateBitLen)','check > (unsigned int)(1 << Vars.ImmediateBitLen)'),
 'apool':m(1,A,'if (abs(pos) > 4095)','if (abs(pos) > 4096)'),
 'ashift':m(1,A,'if (num > 32 || num < 0)','if (num > 33 || num < 0)'),
 'ashiftneg':m(1,A,'if (num > 32 || num < 0)','if (num > 32)'),
 'tpool':m(1,T,'if (pos < 0 || pos > 1020)\n	{\n		Logger::queueError(Logger::Error, "Literal','if (pos < 0 || pos > 1024)\n	{\n		Logger::queueError(Logger::Error, "Literal'),
 'tpcr2':m(1,T,'			if (pos < 0 || pos > 1020)','			if (pos <= 0 || pos > 1020)'),
 'thalf':m(1,T,'if (Vars.Immediate & 1)	// not allowed','if (Vars.Immediate & 0)	// not allowed'),
 'tshift':m(1,T,'(Opcode.flags & THUMB_RIGHTSHIFT_IMMEDIATE) ? 32 : 31','32'),
 'taddsub':m(1,T,'if (-max <= Vars.Immediate && Vars.Immediate < 0)','if (-max <= Vars.Immediate && Vars.Immediate <= 0 && false)'),
 'shalign':m(1,S,'(opflags & SH_IMM32) && (value % 4)','(opflags & SH_IMM32) && (value % 2)'),
 'shrange':m(1,S,'(opflags & SH_IMMSIGNED) ?  (range/2) : range','range'),
 # quiet
 'q_helper':m(0,T,'''bool CThumbInstruction::Validate(''','''static bool pcRangeOk(int pos)
{
	const int limit = 255*4;
	return !(pos < 0) && pos <= limit;
}

bool CThumbInstruction::Validate(''','''			if (pos < 0 || pos > 1020)''','''			if (!pcRangeOk(pos))'''),
 'q_reorder':m(0,M,'''			if (num >= 0x20000 || num < (-0x20000))
			{
				Logger::queueError(Logger::Error, "Branch target %08X out of range",immediateData.primary.value);
				return false;
			}
			if (num & 3)
			{
				Logger::queueError(Logger::Error, "Branch target must be word aligned");
				return false;
			}
''','''			if ((num % 4) != 0)
			{
				Logger::queueError(Logger::Error, "Branch target must be word aligned");
				return false;
			}
			const int limit = 1 << 17;
			if (!(num < limit) || num < -limit)
			{
				Logger::queueError(Logger::Error, "Branch target %08X out of range",immediateData.primary.value);
				return false;
			}
'''),
 'q_msg':m(0,A,'"Literal pool out of range"','"Literal pool too far away"'),
 'q_switch':m(0,M,'''			if (opcodeData.opcode.flags & MO_RSP_HWOFFSET) shift = 1;
			else if (opcodeData.opcode.flags & MO_RSP_WOFFSET) shift = 2;
			else if (opcodeData.opcode.flags & MO_RSP_DWOFFSET) shift = 3;
			else if (opcodeData.opcode.flags & MO_RSP_QWOFFSET) shift = 4;
''','''			struct { int flag; int shift; } table[] = { { MO_RSP_HWOFFSET, 1 }, { MO_RSP_WOFFSET, 2 }, { MO_RSP_DWOFFSET, 3 }, { MO_RSP_QWOFFSET, 4 } };
			for (const auto &e : table)
			{
				if (opcodeData.opcode.flags & e.flag)
				{
					shift = e.shift;
					break;
				}
			}
'''),
 'q_shiftloop':m(0,A,'''	for (int i = 0; i < 32; i+=2)
	{
''','''	int i = 0;
	while (i <= 30)
	{
''','''			return (num << i) | (num >> (-i & 31));
		}
''','''			return (num << i) | (num >> (-i & 31));
		}
		i += 2;
'''),
}
