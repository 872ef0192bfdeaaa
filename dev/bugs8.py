BUGS={
 'userfold':dict(prop='C17',needs='a function defined with .expfunc whose expression depends on layout state (byte order, position, labels), called with constant arguments',breaks='calls of user functions are evaluated while parsing, when the state they read is not the one at their place',
  edits=[('Core/ExpressionFunctionHandler.cpp','parameters.size(), parameters.size(), ExpFuncSafety::Unsafe','parameters.size(), parameters.size(), ExpFuncSafety::ConditionalUnsafe')],
  demo=r'''
cat > t.asm <<'E'
.expfunc pick(x), endianness() == "big" ? x : x + 0x80
.gba
.create "out.bin",0
.byte pick(1)
.close
.n64
.create "out2.bin",0
.byte pick(1)
.close
E
"$ARMIPS" t.asm || exit 1
v=$(cat out.bin out2.bin | od -An -t x1 | tr -d ' \n')
[ "$v" = 8101 ] || { echo "got $v"; exit 1; }
exit 0
'''),
 'thumblate':dict(prop='C17',needs='isthumb() inside a block whose condition is only known during layout, followed by a switch of the instruction set later in the program',breaks='isthumb() is evaluated during layout and gives the mode at the end of the program',
  edits=[('Archs/ARM/ArmExpressionFunctions.cpp','&expFuncIsThumb, 0, 0, ExpFuncSafety::Safe','&expFuncIsThumb, 0, 0, ExpFuncSafety::ConditionalUnsafe')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.thumb
.if org() == 0
.byte isthumb()
.endif
.arm
.byte isthumb()
.close
E
"$ARMIPS" t.asm || exit 1
v=$(od -An -t x1 out.bin | tr -d ' \n')
[ "$v" = 0100 ] || { echo "got $v"; exit 1; }
exit 0
'''),
}
