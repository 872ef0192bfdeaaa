P='Parser/Parser.cpp'; D='Parser/DirectivesParser.cpp'; A='Archs/ARM/ArmParser.cpp'; X='Core/Expression.cpp'
BUGS={
 'trialsilent':dict(prop='C15',needs='the last statement of a macro is a definition that fails only in the trial parse, and a later error',breaks='errors stay suppressed after the macro call: a wrong program is accepted',
  edits=[(P,'		Logger::unsuppressErrors();\n\n		macro.labels','		if (!hasError())\n			Logger::unsuppressErrors();\n\n		macro.labels')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.macro m
 .byte 1
 x equ f(a),a
 .expfunc x
.endmacro
m
.byte f(3)
.foo
.close
E
"$ARMIPS" t.asm >log 2>&1 && { echo "a wrong directive was accepted"; exit 1; }
grep -qi foo log || { echo "no error message"; cat log; exit 1; }
exit 0
'''),
 'trialmode':dict(prop='C15',needs='the last statement of a macro is a definition that fails only in the trial parse',breaks='the parser stays in the mode of searching macros for labels: nothing after the call is assembled',
  edits=[(P,'		initializingMacro = false;\n	}\n\n	// register','		if (!hasError() || macro.labels.empty())\n			initializingMacro = false;\n	}\n\n	// register')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.macro m
 .byte 1
 x equ f(a),a
 .expfunc x
.endmacro
.macro n
 .byte 7
.endmacro
m
lab:
n
.byte f(3)
.byte lab
.close
E
"$ARMIPS" t.asm >log 2>&1 || { echo "a right program was rejected"; cat log; exit 1; }
[ "$(od -An -tx1 out.bin | tr -d ' \n')" = 01070301 ] || { echo "wrong output"; od -An -tx1 out.bin; exit 1; }
exit 0
'''),
 'elsepop':dict(prop='C15',needs='an .else block that is not terminated before the end of a macro',breaks='the rest of the program counts as not taken, so its errors are not reported',
  edits=[(D,'		elseBlock = parser.parseConditionalBlock(\'.\', {".endif"});\n','		elseBlock = parser.parseConditionalBlock(\'.\', {".endif"});\n		if (parser.atEnd())\n			return nullptr;\n')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.macro m
.if 1
.byte 1
.else
.byte 2
.endmacro
m
.macro m
.byte 3
.endmacro
.close
E
"$ARMIPS" t.asm >log 2>&1 && { echo "accepted"; exit 1; }
grep -q 'already defined' log || { echo "the error after the unterminated block is not reported"; cat log; exit 1; }
exit 0
'''),
 'foldquiet':dict(prop='C15',needs='an expression without a value in a block whose condition is only known during layout, and a later error',breaks='errors stay suppressed after it',
  edits=[(X,'			Logger::unsuppressErrors();\n','			if (value.isValid())\n				Logger::unsuppressErrors();\n')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.if org()
.byte substr("abc",5,1)
.endif
.foo
.close
E
"$ARMIPS" t.asm >log 2>&1 && { echo "a wrong program was accepted"; cat log; exit 1; }
exit 0
'''),
}
