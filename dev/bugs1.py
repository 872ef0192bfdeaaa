CXX='g++ -std=c++17 -DARMIPS_USE_STD_FILESYSTEM -I"$repo" -I"$repo/ext/tinyformat" '
TSAN='''
ls "$repo"/Archs/*.cpp "$repo"/Archs/*/*.cpp "$repo"/Commands/*.cpp "$repo"/Core/*.cpp "$repo"/Core/ELF/*.cpp "$repo"/Main/*.cpp "$repo"/Parser/*.cpp "$repo"/Util/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -g1 -fsanitize=thread -DARMIPS_USE_STD_FILESYSTEM -I"$0" -I"$0/ext/tinyformat" -w -c "$1" -o "$(echo "$1" | tr / _).o"' "$repo" {} || exit 3
g++ -fsanitize=thread *.o -o tsan -lpthread || exit 3
'''
BUGS={
 'copycheck':dict(prop='C01',needs='an .open "in","out" whose output already exists, in a source that fails later in layout',breaks='the check-only open of the copy target truncates an existing output file although the assembly fails',
  edits=[('Core/FileManager.cpp','''		// check new file, same as create
		exists = fs::exists(fileName);

		temp.open(fileName, exists ? flagsOpenExisting : flagsOverwrite);''','''		// check new file. It gets replaced by the copy in any case
		exists = fs::exists(fileName);

		temp.open(fileName, flagsOverwrite);''')],
  demo='''
printf 'original input data' > in.bin; printf 'precious old output' > out.bin
printf '.gba\\n.open "in.bin","out.bin",0\\n.org 4\\n.word undefinedlabel\\n.close\\n' > t.asm
"$ARMIPS" t.asm && { echo "must fail"; exit 1; }
[ "$(cat out.bin)" = 'precious old output' ] || { echo "failed run changed out.bin"; exit 1; }
exit 0
'''),
 'lastgate':dict(prop='C02',needs='an error that is first found while output is being produced: a listing file that cannot be created',breaks='errors reported in the output phase no longer make the run fail',
  edits=[('Core/Assembler.cpp','''		g_fileManager->closeFile();
	}

	if (Logger::hasError())
	{
		return false;
	}

	return true;
}''','''		g_fileManager->closeFile();
	}

	return true;
}'''),('Core/Assembler.cpp','''	if (Logger::hasError())
	{
		return false;
	}

	return result;
}''','''	return result;
}''')],
  demo='''
printf '.gba\\n.create "out.bin",0\\n.word 1\\n.close\\n' > t.asm
"$ARMIPS" t.asm -temp "$W/nosuchdir/list.txt" && { echo "error not reflected in exit code"; exit 1; }
"$ARMIPS" t.asm -temp "$W/list.txt" || { echo "good run fails"; exit 1; }
exit 0
'''),
 'areacache':dict(prop='C03',needs='a program with an area or region, a symbol file and a schedule in which two output threads look up area usage at once',breaks='the look-up of area usage keeps a shared unsynchronised cache that the binary and symbol output threads both write',
  edits=[('Core/Allocations.cpp','''	Key key{ fileID, position };
	// For safety, just find the end of the last sub area.
	int64_t maxExtent = 0;
	auto range = subAreas.equal_range(key);''','''	static Key key{ -1, -1 };
	key = Key{ fileID, position };
	// For safety, just find the end of the last sub area.
	int64_t maxExtent = 0;
	auto range = subAreas.equal_range(key);''')],
  demo=TSAN+'''
python3 - <<'P'
s='.gba\\n.create "o.bin",0x8000000\\n'
for i in range(300): s+='.area 0x40,0x11\\n.region 0x20\\n.word %d\\n.endregion\\n.endarea\\n'%i
open('t.asm','w').write(s+'.close\\n')
P
for i in 1 2 3 4; do TSAN_OPTIONS=exitcode=66 ./tsan t.asm -sym s.sym -temp l.txt > log 2>&1; r=$?; [ $r = 66 ] && { grep -m3 "data race\\|#0" log; exit 1; }; [ $r = 0 ] || { cat log; exit 3; }; done
exit 0
'''),
 'condflip':dict(prop='C04',needs='outputs produced one after another: the listing written after the binary',breaks='writing the binary output of an .incbin changes the size that the listing and symbol output describe',
  edits=[('Commands/CDirectiveFile.cpp','''		g_fileManager->write(data.data(),data.size());
	}
}

void CDirectiveIncbin::writeTemp''','''		g_fileManager->write(data.data(),data.size());
		size -= data.size();
	}
}

void CDirectiveIncbin::writeTemp'''),('Commands/CDirectiveFile.h','''	int64_t size;
	int64_t start;
	int64_t virtualAddress;
};''','''	mutable int64_t size;
	int64_t start;
	int64_t virtualAddress;
};''')],
  files={'t.cpp':r'''
#include "Core/Common.h"
#include "Core/FileManager.h"
#include "Core/Misc.h"
#include "Core/SymbolData.h"
#include "Commands/CAssemblerCommand.h"
#include "Parser/Parser.h"
#include "Archs/Architecture.h"
#include "Util/FileClasses.h"
#include <cstdio>
#include <fstream>
#include <sstream>
static std::string slurp(const char* n) { std::ifstream f(n, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void outputs(CAssemblerCommand& c, const char* sym)
{
	SymbolData s; s.setNocashSymFileName(sym, 1);
	c.writeSymData(s); s.write();
}
int main()
{
	{ std::ofstream f("d.bin", std::ios::binary); for (int i = 0; i < 64; i++) f.put(char(i)); }
	TextFile in; in.openMemory(".gba\n.create \"o.bin\",0\n.incbin \"d.bin\"\nlab: .word 1\n.close\n");
	Global.multiThreading = false;
	Parser p; auto c = p.parseFile(in);
	Logger::printQueue(); if (Logger::hasError() || !c) return 3;
	ValidateState v;
	do { g_fileManager->reset(); v.passes++; } while (c->Validate(v) && v.passes < 50);
	outputs(*c, "a.sym");
	c->Encode();
	outputs(*c, "b.sym");
	std::string a = slurp("a.sym"), b = slurp("b.sym");
	if (a.empty()) return 3;
	if (a != b) { puts("symbol output after binary output differs"); return 1; }
	return 0;
}
'''},
  demo=CXX+'"$here/t.cpp" "$repo/_build/libarmips.a" -lpthread -o t || exit 3\n./t'),
 'leakequ':dict(prop='C05',needs='two runs in one process, the first of which defines labels at global scope',breaks='labels of an earlier run stay defined: a reference to a label that the second program lacks is accepted',
  edits=[('Core/SymbolTable.cpp','''void SymbolTable::clear()
{
	symbols.clear();''','''void SymbolTable::clear()
{
	// labels are reused, so only forget the names of the last run
	if (equationsCount != 0 || labels.empty())
		symbols.clear();''')],
  files={'t.cpp':r'''
#include "Core/Assembler.h"
#include "Core/FileManager.h"
#include <cstdio>
static bool run(const char* name, const char* text)
{
	FILE* f = fopen(name, "wb"); fputs(text, f); fclose(f);
	ArmipsArguments a; a.inputFileName = name; a.silent = true;
	return runArmips(a);
}
int main()
{
	if (!run("a.asm", ".gba\n.create \"a.bin\",0\nfoo: .word 1\n.close\n")) return 3;
	if (run("b.asm", ".gba\n.create \"b.bin\",0\n.word foo\n.close\n")) { puts("label of the first run is known in the second"); return 1; }
	return 0;
}
'''},
  demo=CXX+'"$here/t.cpp" "$repo/_build/libarmips.a" -lpthread -o t || exit 3\n./t'),
}
