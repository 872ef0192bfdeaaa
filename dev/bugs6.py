BUGS={
 'lefloat':dict(prop='C11',needs='a float on the left of <= with an integer on the right, equal up to the fraction',breaks='2.5 <= 2 is true',
  edits=[('Core/Expression.cpp','''		return floatValue <= other.intValue;''','''		return (int64_t) floatValue <= other.intValue;''')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.byte 2.5 <= 2, 2.5 >= 2, 2 >= 2.5, 1.5 <= 2, -2.5 <= -2
.close
E
"$ARMIPS" t.asm || exit 1
v=$(od -An -t x1 out.bin | tr -d ' \n')
[ "$v" = 0001000101 ] || { echo "got $v"; exit 1; }
exit 0
'''),
 'shiftassoc':dict(prop='C11',needs='two shifts in a row without brackets, whose grouping matters',breaks='256 >> 4 >> 1 is grouped from the right',
  edits=[('Parser/ExpressionParser.cpp','''		std::unique_ptr<ExpressionInternal> exp2 = additiveExpression(tokenizer);
''','''		std::unique_ptr<ExpressionInternal> exp2 = shiftExpression(tokenizer);
''')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.byte 128 >> 4 >> 1, 1 << 3 << 2, 64 >> 2 << 1
.close
E
"$ARMIPS" t.asm || exit 1
v=$(od -An -t x1 out.bin | tr -d ' \n')
[ "$v" = 042020 ] || { echo "got $v"; exit 1; }
exit 0
'''),
}
