BUGS={
 'regionsym':dict(prop='C06',needs='a region with contents (.region ... .endregion) and a symbol file',breaks='labels inside a region are missing from the symbol file',
  edits=[('Commands/CDirectiveArea.cpp','''	if (content)
		content->writeSymData(symData);

	if (fillExpression''','''	if (content && !shared)
		content->writeSymData(symData);

	if (fillExpression''')],
  demo=r'''
printf '.gba\n.create "out.bin",0x8000000\n.region 0x20\ninside:\n.word 1\n.endregion\n.area 0x20\nother:\n.word 2\n.endarea\n.close\n' > t.asm
"$ARMIPS" t.asm -sym out.sym || exit 1
grep -q other out.sym || { echo "no symbols at all"; exit 1; }
grep -q inside out.sym || { echo "label of the region missing"; exit 1; }
exit 0
'''),
 'elseflag':dict(prop='C06',needs='a label in the else branch of a conditional that is decided during layout, still moving in the last pass',breaks='changes in an else branch do not cause another layout pass, so earlier references keep an outdated address',
  edits=[('Commands/CDirectiveConditional.cpp','''		elseBlock->applyFileInfo();
		if (elseBlock->Validate(state))
			returnValue = true;''','''		elseBlock->applyFileInfo();
		elseBlock->Validate(state);''')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0x8000000
.word target
cond equ (target == 1)
.if cond
 .word 0
.else
 .fill org() < target2 ? 4 : 8
 .fill target == 0x8000008 ? 12 : 16
target:
 .word 5
target2:
 .word 6
.endif
.close
E
"$ARMIPS" t.asm || exit 1
python3 - <<'E' || exit 1
d=open('out.bin','rb').read()
t=int.from_bytes(d[:4],'little')-0x8000000
assert d[t:t+4]==b'\x05\0\0\0',(hex(t),d.hex())
E
exit 0
'''),
 'fill128':dict(prop='C07',needs='.fill, .align or .aligna whose length is a multiple of 128',breaks='the last 128 bytes of such a fill are not written although layout reserved them',
  edits=[('Commands/CDirectiveFile.cpp','''	g_fileManager->write(buffer,n);
}''','''	if (n < 128)
		g_fileManager->write(buffer,n);
}''')],
  demo=r'''
t(){ printf '.gba\n.create "out.bin",0\n.fill %d,1\n.byte 0x55\n.close\n' "$1" > t.asm; "$ARMIPS" t.asm || exit 1; stat -c %s out.bin; }
[ "$(t 127)" = 128 ] || exit 1
[ "$(t 129)" = 130 ] || exit 1
[ "$(t 128)" = 129 ] || { echo "fill of 128 bytes writes $(t 128) with its successor"; exit 1; }
exit 0
'''),
 'hdrzero':dict(prop='C07',needs='.headersize 0 in a file opened with another header size, followed by .org',breaks='output keeps the old header size, so later bytes land elsewhere than layout assumed',
  edits=[('Commands/CDirectiveFile.cpp','''void CDirectiveHeaderSize::Encode() const
{
	exec();''','''void CDirectiveHeaderSize::Encode() const
{
	if (headerSize != 0)
		exec();''')],
  demo=r'''
t(){ printf '.gba\n.create "out.bin",0x8\n.byte 1\n.headersize %d\n.org 0x10\n.byte 2\n.close\n' "$1" > t.asm; "$ARMIPS" t.asm || exit 1; stat -c %s out.bin; }
[ "$(t 4)" = 13 ] || { echo "$(t 4)"; exit 1; }
[ "$(t 0)" = 17 ] || { echo "headersize 0: $(t 0)"; exit 1; }
exit 0
'''),
}
