P='Parser/Parser.cpp'; D='Parser/DirectivesParser.cpp'
BUGS={
 'nestlost':dict(prop='C14',needs='an equ, macro, include or expression function inside a block with a true constant condition that is itself inside a block with a false condition',breaks='the state of the enclosing block is lost, so definitions in an untaken branch take effect',
  edits=[(P,'info.inTrueBlock = info.inTrueBlock && cond != ConditionalResult::False;','info.inTrueBlock = cond != ConditionalResult::False;')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.if 0
.if 1
val equ 2
.expfunc f(x), x+1
.endif
.endif
val equ 1
.expfunc f(x), x+2
.byte val, f(1)
.close
E
"$ARMIPS" t.asm || exit 1
v=$(od -An -t x1 out.bin | tr -d ' \n')
[ "$v" = 0103 ] || { echo "got $v"; exit 1; }
exit 0
'''),
 'equtrial':dict(prop='C14',needs='a macro containing an equ whose name is used for something else after the macro was called',breaks='the trial parse that collects the labels of a macro also defines its equs, under their original name',
  edits=[(P,'				macroLabels.insert(name);\n				return true;\n','				macroLabels.insert(name);\n')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.macro put,x
tmp equ x
.byte tmp
.endmacro
put 1
put 2
tmp equ 5
.byte tmp
.close
E
"$ARMIPS" t.asm || exit 1
v=$(od -An -t x1 out.bin | tr -d ' \n')
[ "$v" = 010205 ] || { echo "got $v"; exit 1; }
exit 0
'''),
 'elsechain':dict(prop='C14',needs='an include, equ or expression function in the else branch of a block whose constant condition is true',breaks='the else branch of a taken block counts as undecided instead of untaken, so its text takes effect while parsing',
  edits=[(D,'	case ConditionalResult::True:\n		elseResult = ConditionalResult::False;','	case ConditionalResult::True:\n		elseResult = ConditionalResult::Unknown;')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.if 1
.byte 1
.else
.include "missing.asm"
.endif
.byte 2
.close
E
"$ARMIPS" t.asm || exit 1
v=$(od -An -t x1 out.bin | tr -d ' \n')
[ "$v" = 0102 ] || { echo "got $v"; exit 1; }
exit 0
'''),
}
