BUGS={
 'poolreach':dict(prop='C09',needs='an ARM literal load whose pool slot lies exactly 4096 bytes after the pc the instruction sees',breaks='a literal pool offset of 4096 is accepted although the field has 12 bits; the extra bit lands in the destination register',
  edits=[('Archs/ARM/CArmInstruction.cpp','if (abs(pos) > 4095)','if (abs(pos) > 0x1000)')],
  demo=r'''
mk(){ printf '.gba\n.create "out.bin",0x8000000\n.arm\nldr r0,=0x12345678\n.fill %d\n.pool\n.close\n' "$1" > t.asm; }
mk 4096; "$ARMIPS" t.asm || { echo "reachable literal refused"; exit 1; }
python3 -c "
d=open('out.bin','rb').read(); w=int.from_bytes(d[:4],'little'); assert w==0xe59f0ffc,hex(w)" || exit 1
mk 4100; "$ARMIPS" t.asm && { echo "literal 4096 bytes away accepted"; exit 1; }
exit 0
'''),
 'rspalign':dict(prop='C09',needs='an RSP vector load whose offset is aligned less than the element size, but not by half of it',breaks='offsets of RSP vector loads and stores that are not a multiple of the access size are rounded down instead of rejected',
  edits=[('Archs/MIPS/CMipsInstruction.cpp','if (immediateData.primary.value & ((1 << shift) - 1))','if (immediateData.primary.value & (1 << (shift - 1)))')],
  demo=r'''
t(){ printf '.rsp\n.create "out.bin",0\n%s\n.close\n' "$1" > t.asm; "$ARMIPS" t.asm; }
t 'lqv v0[0],16(a0)' || exit 1
t 'lqv v0[0],8(a0)' && exit 1
t 'lqv v0[0],4(a0)' && { echo "offset 4 of a quadword load accepted"; exit 1; }
exit 0
'''),
 'vfpu3x3':dict(prop='C10',needs='a PSP 3x3 matrix register whose last digit is 1',breaks='the second 3x3 sub-matrix is encoded as the transposed first one',
  edits=[('Archs/MIPS/MipsParser.cpp','''			if (row & ~1)
				return false;
			row <<= 1;
			break;''','''			if (row & ~1)
				return false;
			break;''')],
  demo=r'''
t(){ printf '.psp\n.create "out.bin",0\n%s\n.close\n' "$1" > t.asm; "$ARMIPS" t.asm || exit 1; od -An -tx1 out.bin | tr -d ' \n'; }
a=$(t 'vmzero.t m001'); b=$(t 'vmzero.t e000')
echo "$a $b"
[ "$a" != "$b" ] || { echo "m001 and e000 have the same encoding"; exit 1; }
exit 0
'''),
 'hireg8':dict(prop='C10',needs='a Thumb high-register operation with r8 as the source',breaks='r8 as the source of add/cmp/mov is encoded as r0',
  edits=[('Archs/ARM/CThumbInstruction.cpp','if (Vars.rs.num > 0x7) encoding |= (1 << 6);','if (Vars.rs.num > 0x8) encoding |= (1 << 6);')],
  demo=r'''
t(){ printf '.gba\n.create "out.bin",0x8000000\n.thumb\n%s\n.close\n' "$1" > t.asm; "$ARMIPS" t.asm || exit 1; od -An -tx1 out.bin | tr -d ' \n'; }
[ "$(t 'add r1,r9')" = 4944 ] || { echo "add r1,r9: $(t 'add r1,r9')"; exit 1; }
[ "$(t 'add r1,r8')" = 4144 ] || { echo "add r1,r8: $(t 'add r1,r8')"; exit 1; }
exit 0
'''),
}
