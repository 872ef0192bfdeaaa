BUGS={
 'roundneg':dict(prop='C16',needs='round() of a negative number exactly half way between two integers',breaks='round(-2.5) gives -2',
  edits=[('Core/ExpressionFunctions.cpp','''result.intValue = llround(parameters[0].floatValue);''','''result.intValue = (int64_t) floor(parameters[0].floatValue + 0.5);''')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.byte round(2.5), round(-2.5), round(-0.5), round(-0.25), round(1.25)
.close
E
"$ARMIPS" t.asm || exit 1
v=$(od -An -t x1 out.bin | tr -d ' \n')
[ "$v" = 03fdff0001 ] || { echo "got $v"; exit 1; }
exit 0
'''),
 'hiwrap':dict(prop='C16',needs='hi() of a value between 0xFFFF8000 and 0xFFFFFFFF',breaks='hi(0xFFFF8000) is 0x10000',
  edits=[('Archs/MIPS/MipsExpressionFunctions.cpp','''(int64_t)((value >> 16) + ((value & 0x8000) != 0)) & 0xFFFF''','''(int64_t)(((value >> 16) & 0xFFFF) + ((value & 0x8000) != 0))''')],
  demo=r'''
cat > t.asm <<'E'
.ps2
.create "out.bin",0
.word hi(0xFFFF8000), hi(0x12348000), lo(0xFFFF8000), hi(0x7FFF)
lui a0,hi(0xFFFFFFFC)
.close
E
"$ARMIPS" t.asm || exit 1
v=$(od -An -t x4 out.bin | tr -d ' \n')
[ "$v" = 0000000000001235ffff8000000000003c040000 ] || { echo "got $v"; exit 1; }
exit 0
'''),
}
