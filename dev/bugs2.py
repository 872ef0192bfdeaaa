BUGS={
 'swap64':dict(prop='C12',needs='a big-endian target and a 64-bit value with bits 40-43 set',breaks='the byte swap of 64-bit values loses four bits of one byte, so big-endian 64-bit data is wrong for some values',
  edits=[('Core/FileManager.cpp','((value & 0xFF0000000000) >> 24)','((value & 0xF00000000000) >> 24)')],
  demo=r'''
printf '.n64\n.create "out.bin",0\n.doubleword 0x1122344566778899\n.close\n' > t.asm
"$ARMIPS" t.asm || exit 3
sed 's/0x1122344566778899/0x11223D4566778899/' t.asm | sed 's/out.bin/out2.bin/' > t2.asm
"$ARMIPS" t2.asm || exit 3
python3 - <<'P' || exit 1
a=open('out.bin','rb').read(); b=open('out2.bin','rb').read()
assert a==bytes.fromhex('1122344566778899'),a.hex()
assert b==bytes.fromhex('11223d4566778899'),b.hex()
P
exit 0
'''),
}
