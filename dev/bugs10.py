P='Parser/Parser.cpp'; T='Parser/Tokenizer.cpp'; C='Core/Assembler.cpp'
PRE=r'''
run() { ( ulimit -v 3000000; timeout 20 "$ARMIPS" "$1" >log 2>&1 ); r=$?; [ $r -le 1 ] || { echo "$1: no proper end (status $r)"; exit 1; }; }
'''
BUGS={
 'errtail':dict(prop='C13',needs='a statement with an error at the very end of a file whose last line ends in a line continuation, so that no separator follows it',breaks='skipping the rest of a wrong statement never ends',
  edits=[(P,'	while (!atEnd() && nextToken().type != TokenType::Separator);','	while (nextToken().type != TokenType::Separator);')],
  demo=PRE+r'''
printf '.gba\n.create "out.bin",0\nfoo r1,r2 \\' > t.asm
run t.asm
printf '.gba\n.create "out.bin",0\nfoo r1,r2\n' > u.asm
run u.asm
exit 0
'''),
 'argtail':dict(prop='C13',needs='a macro call as the last thing in a file whose last line ends in a line continuation',breaks='collecting the macro argument never ends',
  edits=[(P,'	while (!atEnd() && peekToken().type != TokenType::Separator)\n	{\n		// if the next','	while (peekToken().type != TokenType::Separator)\n	{\n		// if the next')],
  demo=PRE+r'''
printf '.gba\n.create "out.bin",0\n.macro m,a\n.byte a\n.endmacro\nm 1\nm 2+\\' > t.asm
run t.asm
exit 0
'''),
 'passskip':dict(prop='C13',needs='a layout that never becomes stable',breaks='the count of layout passes can step over the limit it is compared with, and a layout that keeps changing is computed forever',
  edits=[(C,'		if (validation.passes >= 100)\n','		if (validation.passes == 100)\n'),(C,'		validation.passes++;\n','		// passes that change something count threefold\n		validation.passes += Revalidate ? 3 : 1;\n')],
  demo=PRE+r"""
cat > u.asm <<'E'
.gba
.create "out.bin",0
start:
.fill (stop-start == 4) ? 8 : 4
stop:
.close
E
run u.asm
exit 0
"""),
 'comtail':dict(prop='C13',needs='a block comment that is not closed before the end of the file',breaks='reading lines in search of the end of the comment never ends',
  edits=[(T,'					if (isInputAtEnd())\n','					if (input->atEnd() && linePos < currentLine.size())\n')],
  demo=PRE+r'''
printf '.gba\n.create "out.bin",0\n.byte 1 /* open\ncomment\n' > t.asm
run t.asm
printf '.gba\n/* a\nb */ .create "out.bin",0\n.byte 1\n.close\n' > u.asm
run u.asm
exit 0
'''),
 'manyargs':dict(prop='C13',needs='a macro call with more arguments than parameters',breaks='the surplus arguments are never skipped',
  edits=[(P,'			// skip comma\n			eatToken();\n','			// skip comma\n			if (count == macro.parameters.size() && count != 0)\n				eatToken();\n')],
  demo=PRE+r'''
printf '.gba\n.create "out.bin",0\n.macro m,a\n.byte a\n.endmacro\nm 1,2,3\n.close\n' > t.asm
run t.asm
exit 0
'''),
}
