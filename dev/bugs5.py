BUGS={
 'physlabel':dict(prop='C08',needs='orga() of a label whose physical address moves in the last layout pass while its virtual address stays (a header size that depends on labels)',breaks='a changed physical label address does not cause another pass, earlier references keep the outdated one',
  edits=[('Commands/CAssemblerLabel.cpp','''		label->setPhysicalValue(physicalValue);
		result = true;''','''		if (!label->hasPhysicalValue())
			result = true;
		label->setPhysicalValue(physicalValue);''')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0x100
.word orga(lab)
.headersize size
.org 0x500
lab:
.word 2
.org b
size:
.org c
b:
.org 0x200
c:
.byte 1
.close
E
"$ARMIPS" t.asm || exit 1
v=$(od -An -t x4 -N 4 out.bin | tr -d ' ')
[ "$v" = 00000300 ] || { echo "orga(lab) is $v"; exit 1; }
exit 0
'''),
 'silentbound':dict(prop='C08',needs='a program whose layout never settles',breaks='after 100 passes the unsettled layout is output instead of an error',
  edits=[('Core/Assembler.cpp','''		Revalidate = content->Validate(validation);
''','''		Revalidate = content->Validate(validation) && validation.passes + 1 < 100;
''')],
  demo=r'''
cat > t.asm <<'E'
.gba
.create "out.bin",0
.word b
.fill b < 0x10 ? 0x20 : 4
b:
.word 1
.close
E
if "$ARMIPS" t.asm >log 2>&1; then echo "assembled although the layout never settles"; exit 1; fi
exit 0
'''),
}
