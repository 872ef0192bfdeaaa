From 2687e5adfcd24ef0476363230df099b1a5502787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:34 +0000
Subject: [PATCH 01/40] fix: do not insert into the allocation map while output
 threads read it

Allocations::getSubAreaUsage is called from the binary, listing and symbol
output threads; map::operator[] inserted an entry for an empty filled area
(.area 0,5), a data race on the map.
---
 Core/Allocations.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 920ef08..1a7c6f2 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -121,9 +121,12 @@ int64_t Allocations::getSubAreaUsage(int64_t fileID, int64_t position)
 	}
 
 	// Now subtract out the original usage.
-	if (maxExtent <= allocations[key].usage)
+	// This runs concurrently in the output threads, so it must not insert missing entries.
+	auto allocation = allocations.find(key);
+	int64_t usage = allocation != allocations.end() ? allocation->second.usage : 0;
+	if (maxExtent <= usage)
 		return 0;
-	return maxExtent - allocations[key].usage;
+	return maxExtent - usage;
 }
 
 void Allocations::validateOverlap()
-- 
2.43.0


From 60aad48baab2337877fb0f53ba19ad9bb8240b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:56 +0000
Subject: [PATCH 02/40] fix: record the address listed for .loadelf during
 layout

The listing thread asked the file manager for the current address while the
binary output thread was opening and advancing files, a data race.
---
 Archs/MIPS/MipsElfFile.cpp | 5 +++--
 Archs/MIPS/MipsElfFile.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index 27013bc..9576f20 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -295,6 +295,7 @@ DirectiveLoadMipsElf::DirectiveLoadMipsElf(const fs::path& inputName, const fs::
 bool DirectiveLoadMipsElf::Validate(const ValidateState &state)
 {
 	Architecture::current().NextSection();
+	virtualAddress = g_fileManager->getVirtualAddress();
 	g_fileManager->openFile(file,true);
 	return false;
 }
@@ -308,9 +309,9 @@ void DirectiveLoadMipsElf::writeTempData(TempData& tempData) const
 {
 	if (outputName.empty())
 	{
-		tempData.writeLine(g_fileManager->getVirtualAddress(),tfm::format(".loadelf \"%s\"",inputName.u8string()));
+		tempData.writeLine(virtualAddress,tfm::format(".loadelf \"%s\"",inputName.u8string()));
 	} else {
-		tempData.writeLine(g_fileManager->getVirtualAddress(),tfm::format(".loadelf \"%s\",\"%s\"",
+		tempData.writeLine(virtualAddress,tfm::format(".loadelf \"%s\",\"%s\"",
 			inputName.u8string(),outputName.u8string()));
 	}
 }
diff --git a/Archs/MIPS/MipsElfFile.h b/Archs/MIPS/MipsElfFile.h
index f4291ff..aa179bc 100644
--- a/Archs/MIPS/MipsElfFile.h
+++ b/Archs/MIPS/MipsElfFile.h
@@ -51,4 +51,5 @@ private:
 	std::shared_ptr<MipsElfFile> file;
 	fs::path inputName;
 	fs::path outputName;
+	int64_t virtualAddress = -1;
 };
-- 
2.43.0


From e92320982f1ca2ff2a4358339830bd4b20b209b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:56 +0000
Subject: [PATCH 03/40] fix: synchronise error reports from the parallel output
 threads

The listing, symbol and binary output threads all report errors (a file that
cannot be opened or read) and appended to the shared error list unsynchronised.
---
 Core/Misc.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Core/Misc.cpp b/Core/Misc.cpp
index 4392316..9e2c91e 100644
--- a/Core/Misc.cpp
+++ b/Core/Misc.cpp
@@ -6,6 +6,7 @@
 #include "Util/Util.h"
 
 #include <iostream>
+#include <mutex>
 
 std::vector<Logger::QueueEntry> Logger::queue;
 std::vector<std::string> Logger::errors;
@@ -15,6 +16,9 @@ bool Logger::errorOnWarning = false;
 bool Logger::silent = false;
 int Logger::suppressLevel = 0;
 
+// errors can be reported by the parallel output threads
+static std::mutex loggerMutex;
+
 std::string Logger::formatError(ErrorType type, const char* text)
 {
 	std::string position;
@@ -91,6 +95,7 @@ void Logger::printError(ErrorType type, const std::string_view text)
 	if (suppressLevel)
 		return;
 
+	std::lock_guard<std::mutex> lock(loggerMutex);
 	std::string errorText = formatError(type,text.data());
 	errors.push_back(errorText);
 
@@ -105,6 +110,7 @@ void Logger::queueError(ErrorType type, const std::string_view text)
 	if (suppressLevel)
 		return;
 
+	std::lock_guard<std::mutex> lock(loggerMutex);
 	QueueEntry entry;
 	entry.type = type;
 	entry.text = formatError(type,text.data());
@@ -113,6 +119,7 @@ void Logger::queueError(ErrorType type, const std::string_view text)
 
 void Logger::printQueue()
 {
+	std::lock_guard<std::mutex> lock(loggerMutex);
 	for (size_t i = 0; i < queue.size(); i++)
 	{
 		errors.push_back(queue[i].text);
-- 
2.43.0


From f3d68be935b05376de0ab2cc5a416cb5a711625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:58 +0000
Subject: [PATCH 04/40] fix: keep the source position of the current command
 per thread

The listing thread updated the position while errors raised by the binary and
symbol output threads read it, a data race that also gave them the position of
whatever command was being listed.
---
 Core/Common.cpp |  2 ++
 Core/Common.h   | 10 ++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Core/Common.cpp b/Core/Common.cpp
index 05efb9b..433666e 100644
--- a/Core/Common.cpp
+++ b/Core/Common.cpp
@@ -11,6 +11,8 @@ FileManager fileManager;
 FileManager* g_fileManager = &fileManager;
 
 tGlobal Global;
+thread_local int tFileInfo::FileNum = 0;
+thread_local int tFileInfo::LineNumber = 0;
 
 void FileList::add(const fs::path &path)
 {
diff --git a/Core/Common.h b/Core/Common.h
index 4913eb8..9b618d5 100644
--- a/Core/Common.h
+++ b/Core/Common.h
@@ -44,11 +44,13 @@ private:
 	std::vector<Entry> _entries;
 };
 
-typedef struct {
-	int FileNum;
-	int LineNumber;
+struct tFileInfo {
+	// source position of the current command. the listing thread goes through
+	// the commands at the same time as the other output threads
+	static thread_local int FileNum;
+	static thread_local int LineNumber;
 	int TotalLineCount;
-} tFileInfo;
+};
 
 typedef struct {
 	FileList fileList;
-- 
2.43.0


From f898060b6de1965f0530001bdcacea9884dd5137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:49 +0000
Subject: [PATCH 05/40] fix: clear the character lookup of an encoding table

EncodingTable::clear kept the lookup while dropping the entries it refers to.
After a run with .loadtable, .string in a later run without a table read past
the end of the entries instead of reporting an error.
---
 Util/EncodingTable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Util/EncodingTable.cpp b/Util/EncodingTable.cpp
index 373b35b..ad1c9a4 100644
--- a/Util/EncodingTable.cpp
+++ b/Util/EncodingTable.cpp
@@ -78,6 +78,8 @@ void EncodingTable::clear()
 {
 	hexData.clear();
 	entries.clear();
+	lookup = Trie();
+	terminationEntry = TableEntry();
 }
 
 int parseHexString(std::string& hex, unsigned char* dest)
-- 
2.43.0


From 592f0f9257c6f14172b390ccf3c8e44b7931b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:49 +0000
Subject: [PATCH 06/40] fix: reset the architecture settings at the start of a
 run

.fixloaddelay (and the other MIPS settings) stayed in force for later runs in
the same process.
---
 Archs/ARM/Arm.cpp  | 1 +
 Core/Assembler.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/Archs/ARM/Arm.cpp b/Archs/ARM/Arm.cpp
index 6542aac..e000adc 100644
--- a/Archs/ARM/Arm.cpp
+++ b/Archs/ARM/Arm.cpp
@@ -46,6 +46,7 @@ void CArmArchitecture::clear()
 {
 	currentPoolContent.clear();
 	thumb = false;
+	version = AARCH_GBA;
 }
 
 void CArmArchitecture::Pass2()
diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index b1d006c..0785dfa 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -163,6 +163,8 @@ bool runArmips(ArmipsArguments& settings)
 	Global.FileInfo.FileNum = 0;
 
 	Arm.clear();
+	Mips = CMipsArchitecture();
+	SuperH = CShArchitecture();
 
 	ExpressionFunctionHandler::instance().reset();
 	registerExpressionFunctions(ExpressionFunctionHandler::instance());
-- 
2.43.0


From c2464a53c0605e522e99e1fc188435212aaf7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:49 +0000
Subject: [PATCH 07/40] fix: forget pools, generated labels and files of
 earlier runs

Literal pools of an earlier run in the same process were still counted in the
statistics, names generated for its anonymous labels were still known, and its
memory file was kept alive.
---
 Core/Allocations.cpp | 2 ++
 Core/Assembler.cpp   | 2 ++
 Core/SymbolTable.cpp | 1 +
 3 files changed, 5 insertions(+)

diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 1a7c6f2..b647b82 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -17,6 +17,8 @@ bool Allocations::keptPositions = false;
 void Allocations::clear()
 {
 	allocations.clear();
+	pools.clear();
+	subAreas.clear();
 	keepPositions = false;
 	nextKeepPositions = true;
 	keptPositions = false;
diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index 0785dfa..823736f 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -156,6 +156,8 @@ bool runArmips(ArmipsArguments& settings)
 	Allocations::clear();
 	Global.Table.clear();
 	Global.symbolTable.clear();
+	Global.memoryFile = nullptr;
+	g_fileManager->reset();
 
 	Global.fileList.clear();
 	Global.FileInfo.TotalLineCount = 0;
diff --git a/Core/SymbolTable.cpp b/Core/SymbolTable.cpp
index b7f682f..52dcf6f 100644
--- a/Core/SymbolTable.cpp
+++ b/Core/SymbolTable.cpp
@@ -40,6 +40,7 @@ void SymbolTable::clear()
 {
 	symbols.clear();
 	labels.clear();
+	generatedLabels.clear();
 	equationsCount = 0;
 	uniqueCount = 0;
 }
-- 
2.43.0


From f3b04ec12bec08a8776adf5aad1c96e1e7fba7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:51 +0000
Subject: [PATCH 08/40] fix: reject MIPS immediates, branch targets and bit
 fields that do not fit

---
 Archs/MIPS/CMipsInstruction.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index ac364a4..a845fd9 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -120,16 +120,26 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			immediateData.primary.value = -immediateData.primary.value;
 		} else if (opcodeData.opcode.flags & MO_IPCA)	// absolute value >> 2
 		{
+			if (immediateData.primary.value & 3)
+			{
+				Logger::queueError(Logger::Error, "Branch target must be word aligned");
+				return false;
+			}
 			immediateData.primary.value = (immediateData.primary.value >> 2) & 0x3FFFFFF;
 		} else if (opcodeData.opcode.flags & MO_IPCR)	// relative 16 bit value
 		{
 			int num = (int) (immediateData.primary.value-RamPos-4);
 			
-			if (num > 0x20000 || num < (-0x20000))
+			if (num >= 0x20000 || num < (-0x20000))
 			{
 				Logger::queueError(Logger::Error, "Branch target %08X out of range",immediateData.primary.value);
 				return false;
 			}
+			if (num & 3)
+			{
+				Logger::queueError(Logger::Error, "Branch target must be word aligned");
+				return false;
+			}
 			immediateData.primary.value = num >> 2;
 		} else if (opcodeData.opcode.flags & (MO_RSP_HWOFFSET | MO_RSP_WOFFSET | MO_RSP_DWOFFSET | MO_RSP_QWOFFSET))
 		{
@@ -152,7 +162,8 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		unsigned int mask = (0xFFFFFFFF << (32-immediateBits)) >> (32-immediateBits);
 		int digits = (immediateBits+3) / 4;
 
-		if ((unsigned int)std::abs(immediateData.primary.value) > mask)
+		// has to fit as signed or as unsigned number
+		if (immediateData.primary.value < -(1 << (immediateBits-1)) || immediateData.primary.value > (int)mask)
 		{
 			Logger::queueError(Logger::Error, "Immediate value 0x%0*X out of range",digits,immediateData.primary.value);
 			return false;
@@ -185,7 +196,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			break;
 		case MipsImmediateType::Ext:
 		case MipsImmediateType::Ins:
-			if (immediateData.secondary.value > 32 || immediateData.secondary.value == 0)
+			if (immediateData.secondary.value > 32 || immediateData.secondary.value <= 0)
 			{
 				Logger::queueError(Logger::Error, "Immediate value %02X out of range",immediateData.secondary.value);
 				return false;
@@ -194,6 +205,11 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			immediateData.secondary.value--;
 			if (immediateData.secondary.type == MipsImmediateType::Ins)
 				immediateData.secondary.value += immediateData.primary.value;
+			if (immediateData.secondary.value > 31)
+			{
+				Logger::queueError(Logger::Error, "Bit field exceeds the register size");
+				return false;
+			}
 			break;
 		case MipsImmediateType::Cop2BranchType:
 		default:
-- 
2.43.0


From 726d478de491850d3cb6e1ad778bf514354f05f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:51 +0000
Subject: [PATCH 09/40] fix: reject SuperH immediates that do not fit, accept
 the lowest branch target

---
 Archs/SuperH/CShInstruction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Archs/SuperH/CShInstruction.cpp b/Archs/SuperH/CShInstruction.cpp
index 2b1fc64..1514630 100644
--- a/Archs/SuperH/CShInstruction.cpp
+++ b/Archs/SuperH/CShInstruction.cpp
@@ -100,7 +100,7 @@ bool CShInstruction::Validate(const ValidateState &state)
 		{
 			int range    = maxImmediate * (opflags & SH_IMM32 ? 4 : 2);
 			int hiRange  = (opflags & SH_IMMSIGNED) ?  (range/2) : range;
-			int lowRange = (opflags & SH_IMMSIGNED) ? -(range/2) : 0;
+			int lowRange = (opflags & SH_IMMSIGNED) ? -((maxImmediate+1)/2 * (opflags & SH_IMM32 ? 4 : 2)) : 0;
 
 			int64_t num = (int64_t) (immediateData.primary.value - immRelAddr);
 
@@ -120,7 +120,8 @@ bool CShInstruction::Validate(const ValidateState &state)
 		unsigned int mask = (0xFFFFFFFF << (32-immediateBits)) >> (32-immediateBits);
 		int digits = (immediateBits+3) / 4;
 
-		if ((unsigned int)std::abs(immediateData.primary.value) > mask)
+		// has to fit as signed or as unsigned number
+		if (immediateData.primary.value < -(1 << (immediateBits-1)) || immediateData.primary.value > (int)mask)
 		{
 			Logger::queueError(Logger::Error, "Immediate value 0x%0*X out of range",digits,immediateData.primary.value);
 			return false;
-- 
2.43.0


From 2cc985ba34859683a1fe3a5d89193878d4ff82d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:51 +0000
Subject: [PATCH 10/40] fix: reject ARM shift, coprocessor and interrupt
 numbers and Thumb blx targets that do not fit, accept the lowest branch
 target

---
 Archs/ARM/CArmInstruction.cpp   | 11 ++++++-----
 Archs/ARM/CThumbInstruction.cpp |  8 +++-----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index ac2d0ce..12e6105 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -90,7 +90,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		else if (num == 0 && mode == ARM_SHIFT_ROR) mode = ARM_SHIFT_LSL;
 		else if (num == 32 && mode == ARM_SHIFT_LSR) num = 0;
 		else if (num == 32 && mode == ARM_SHIFT_ASR) num = 0;
-		else if (num == 32 && mode == ARM_SHIFT_LSL)
+		else if (num == 32 && (mode == ARM_SHIFT_LSL || mode == ARM_SHIFT_ROR))
 		{
 			Logger::queueError(Logger::Error, "Shift amount 0x%02X out of range",num);
 			return false;
@@ -124,7 +124,8 @@ bool CArmInstruction::Validate(const ValidateState &state)
 			return false;
 		}
 
-		if (Vars.CopData.Cpop > 15)
+		// MRC and MCR only have three bits
+		if (Vars.CopData.Cpop < 0 || Vars.CopData.Cpop > (Opcode.type == ARM_TYPE16 ? 7 : 15))
 		{
 			Logger::queueError(Logger::Error, "CP Opc number %02X too big",Vars.CopData.Cpop);
 			return false;
@@ -139,7 +140,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 			return false;
 		}
 
-		if (Vars.CopData.Cpinf > 7)
+		if (Vars.CopData.Cpinf < 0 || Vars.CopData.Cpinf > 7)
 		{
 			Logger::queueError(Logger::Error, "CP Inf number %02X too big",Vars.CopData.Cpinf);
 			return false;
@@ -302,7 +303,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 			}
 
 			Vars.Immediate = (int) (Vars.Immediate-RamPos-8);
-			if (abs(Vars.Immediate) >= 0x2000000)
+			if (Vars.Immediate >= 0x2000000 || Vars.Immediate < -0x2000000)
 			{
 				Logger::queueError(Logger::Error, "Branch target %08X out of range",Vars.OriginalImmediate);
 				return false;
@@ -318,7 +319,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		} else if (Opcode.flags & ARM_SWI)	// it's an interrupt, may need to shift it
 		{
 			bool needsShift = arch == AARCH_GBA || arch == AARCH_NDS;
-			if (needsShift && Vars.Immediate < 0xFF)
+			if (needsShift && Vars.Immediate >= 0 && Vars.Immediate < 0xFF)
 			{
 				Vars.Immediate <<= 16;
 				Vars.OriginalImmediate = Vars.Immediate;
diff --git a/Archs/ARM/CThumbInstruction.cpp b/Archs/ARM/CThumbInstruction.cpp
index 5829555..f8cdaaa 100644
--- a/Archs/ARM/CThumbInstruction.cpp
+++ b/Archs/ARM/CThumbInstruction.cpp
@@ -95,7 +95,9 @@ bool CThumbInstruction::Validate(const ValidateState &state)
 			}
 
 			int num = (int) (Vars.Immediate-RamPos-4);
-			
+			if (Opcode.flags & THUMB_EXCHANGE)
+				num += num & 2;
+
 			if (num >= (1 << Vars.ImmediateBitLen) || num < (0-(1 << Vars.ImmediateBitLen)))
 			{
 				Logger::queueError(Logger::Error, "Branch target 0x%X out of range",Vars.OriginalImmediate);
@@ -103,10 +105,6 @@ bool CThumbInstruction::Validate(const ValidateState &state)
 			}
 
 			Vars.Immediate = num >> 1;
-			if (Opcode.flags & THUMB_EXCHANGE)
-			{
-				Vars.Immediate += Vars.Immediate&1;
-			}
 		} else if (Opcode.flags & THUMB_WORD)
 		{
 			if (Vars.Immediate & 3)	// not allowed
-- 
2.43.0


From e39f9b33ed6530d1e855a826f289c476f8e4bb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:52 +0000
Subject: [PATCH 11/40] fix: do not put an unset base register into strh with a
 pc-relative target

---
 Archs/ARM/CArmInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 12e6105..1d4ed6e 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -607,7 +607,7 @@ void CArmInstruction::Encode() const
 		break;
 	case ARM_TYPE10:	// ARM.10: Halfword, Doubleword, and Signed Data Transfer
 		if (Vars.writeback) encoding |= (1 << 21);
-		encoding |= (Vars.rn.num << 16);
+		if (Opcode.flags & ARM_N) encoding |= (Vars.rn.num << 16);
 		encoding |= (Vars.rd.num << 12);
 		if ((Opcode.flags & ARM_SIGN) && !Vars.SignPlus) encoding &= ~(1 << 23);
 		if ((Opcode.flags & ARM_ABS) && Vars.negative) encoding &= ~(1 << 23);
-- 
2.43.0


From f5b6f0e76c3d640135dc2e98a1e3cbede310d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 12/40] fix: encode the one operand forms of wsbh, wsbw, seb,
 bitrev and seh with their source register

---
 Archs/MIPS/MipsOpcodes.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Archs/MIPS/MipsOpcodes.cpp b/Archs/MIPS/MipsOpcodes.cpp
index 6e00cd6..ca4176b 100644
--- a/Archs/MIPS/MipsOpcodes.cpp
+++ b/Archs/MIPS/MipsOpcodes.cpp
@@ -667,15 +667,15 @@ const tMipsOpcode MipsOpcodes[] = {
 //  hi |-------|-------|-------|-------|-------|-------|-------|-------|
 	// VVVVVV ----- ttttt ddddd VVVVV VVVVVV
 	{ "wsbh",	"d,t",			MIPS_ALLEGREX0(0x02),		MA_PSP,		0 },
-	{ "wsbh",	"d",			MIPS_ALLEGREX0(0x02),		MA_PSP,		0 },
+	{ "wsbh",	"d",			MIPS_ALLEGREX0(0x02),		MA_PSP,		MO_RDT },
 	{ "wsbw",	"d,t",			MIPS_ALLEGREX0(0x03),		MA_PSP,		0 },
-	{ "wsbw",	"d",			MIPS_ALLEGREX0(0x03),		MA_PSP,		0 },
+	{ "wsbw",	"d",			MIPS_ALLEGREX0(0x03),		MA_PSP,		MO_RDT },
 	{ "seb",	"d,t",			MIPS_ALLEGREX0(0x10),		MA_PSP,		0 },
-	{ "seb",	"d",			MIPS_ALLEGREX0(0x10),		MA_PSP,		0 },
+	{ "seb",	"d",			MIPS_ALLEGREX0(0x10),		MA_PSP,		MO_RDT },
 	{ "bitrev",	"d,t",			MIPS_ALLEGREX0(0x14),		MA_PSP,		0 },
-	{ "bitrev",	"d",			MIPS_ALLEGREX0(0x14),		MA_PSP,		0 },
+	{ "bitrev",	"d",			MIPS_ALLEGREX0(0x14),		MA_PSP,		MO_RDT },
 	{ "seh",	"d,t",			MIPS_ALLEGREX0(0x18),		MA_PSP,		0 },
-	{ "seh",	"d",			MIPS_ALLEGREX0(0x18),		MA_PSP,		0 },
+	{ "seh",	"d",			MIPS_ALLEGREX0(0x18),		MA_PSP,		MO_RDT },
 
 
 //     VFPU4: This one is a bit messy.
-- 
2.43.0


From 68223f03bd907ed949950dc1f3a1e198c294f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 13/40] fix: encode ldrt, strt, ldrbt and strbt without offset
 as user mode transfers

---
 Archs/ARM/ArmOpcodes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index c3a3bca..617defc 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -152,19 +152,19 @@ const tArmOpcode ArmOpcodes[] = {
 	{ "ldrCb",	"d0,[n0],vm1S1",		0x06D00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCb",	"d0,[n0],/#j\x0C",		0x04D00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strC",	"d0,[n0]!",				0x05A00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "strCt",	"d0,[n0]",				0x05A00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "strCt",	"d0,[n0]",				0x04A00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "strCt",	"d0,[n0],vm1S1",		0x06A00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "strCt",	"d0,[n0],/#j\x0C",		0x04A00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrC",	"d0,[n0]!",				0x05B00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "ldrCt",	"d0,[n0]",				0x05B00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "ldrCt",	"d0,[n0]",				0x04B00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "ldrCt",	"d0,[n0],vm1S1",		0x06B00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCt",	"d0,[n0],/#j\x0C",		0x04B00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strCb",	"d0,[n0]!",				0x05E00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "strCbt",	"d0,[n0]",				0x05E00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "strCbt",	"d0,[n0]",				0x04E00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "strCbt",	"d0,[n0],vm1S1",		0x06E00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "strCbt",	"d0,[n0],/#j\x0C",		0x04E00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrCb",	"d0,[n0]!",				0x05F00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "ldrCbt",	"d0,[n0]",				0x05F00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "ldrCbt",	"d0,[n0]",				0x04F00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "ldrCbt",	"d0,[n0],vm1S1",		0x06F00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCbt",	"d0,[n0],/#j\x0C",		0x04F00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrC",	"d0,[/#j\x0C]",			0x059F0000,	ARM_TYPE9,	ARM_D|ARM_LOAD|ARM_ABSIMM|ARM_IMMEDIATE },
-- 
2.43.0


From 692c441f63d20abebf397bd51c257e16b121fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:34 +0000
Subject: [PATCH 14/40] fix: reject vcmovt and vcmovf condition numbers that
 spill into the opcode

---
 Archs/MIPS/CMipsInstruction.cpp | 3 +++
 Archs/MIPS/CMipsInstruction.h   | 1 +
 Archs/MIPS/MipsOpcodes.cpp      | 4 ++--
 Archs/MIPS/MipsParser.cpp       | 3 +++
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index a845fd9..c46efbe 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -27,6 +27,8 @@ int getImmediateBits(MipsImmediateType type)
 {
 	switch (type)
 	{
+	case MipsImmediateType::Immediate3:
+		return 3;
 	case MipsImmediateType::Immediate5:
 		return 5;
 	case MipsImmediateType::Immediate7:
@@ -354,6 +356,7 @@ void CMipsInstruction::encodeVfpu() const
 	
 	switch (immediateData.primary.type)
 	{
+	case MipsImmediateType::Immediate3:
 	case MipsImmediateType::Immediate5:
 		encoding |= immediateData.primary.value << 16;
 		break;
diff --git a/Archs/MIPS/CMipsInstruction.h b/Archs/MIPS/CMipsInstruction.h
index 0ed29c6..fe62c8c 100644
--- a/Archs/MIPS/CMipsInstruction.h
+++ b/Archs/MIPS/CMipsInstruction.h
@@ -27,6 +27,7 @@ enum class MipsRegisterType
 enum class MipsImmediateType
 {
 	None,
+	Immediate3,
 	Immediate5,
 	Immediate10,
 	Immediate16,
diff --git a/Archs/MIPS/MipsOpcodes.cpp b/Archs/MIPS/MipsOpcodes.cpp
index ca4176b..55c63ba 100644
--- a/Archs/MIPS/MipsOpcodes.cpp
+++ b/Archs/MIPS/MipsOpcodes.cpp
@@ -696,8 +696,8 @@ const tMipsOpcode MipsOpcodes[] = {
 	{ "vf2iu.S",	"vd,vs,i5",	MIPS_VFPU4(0x12),			MA_PSP,		MO_VFPU },
 	{ "vf2id.S",	"vd,vs,i5",	MIPS_VFPU4(0x13),			MA_PSP,		MO_VFPU },
 	{ "vi2f.S",		"vd,vs,i5",	MIPS_VFPU4(0x14),			MA_PSP,		MO_VFPU },
-	{ "vcmovt.S",	"vd,vs,i5",	MIPS_VFPU4(0x15)|0,  		MA_PSP,		MO_VFPU },
-	{ "vcmovf.S",	"vd,vs,i5",	MIPS_VFPU4(0x15)|(1<<19),	MA_PSP,		MO_VFPU },
+	{ "vcmovt.S",	"vd,vs,i3",	MIPS_VFPU4(0x15)|0,  		MA_PSP,		MO_VFPU },
+	{ "vcmovf.S",	"vd,vs,i3",	MIPS_VFPU4(0x15)|(1<<19),	MA_PSP,		MO_VFPU },
 	{ "vwbn.S",		"vd,vs,i5",	MIPS_VFPU4(0x18),			MA_PSP,		MO_VFPU },
 
 //     31-------------21-------16--------------------------------------0
diff --git a/Archs/MIPS/MipsParser.cpp b/Archs/MIPS/MipsParser.cpp
index 13a779c..6ad9dbe 100644
--- a/Archs/MIPS/MipsParser.cpp
+++ b/Archs/MIPS/MipsParser.cpp
@@ -1133,6 +1133,9 @@ static bool decodeImmediateSize(const char*& encoding, MipsImmediateType& dest)
 
 		switch (num)
 		{
+		case 3:
+			dest = MipsImmediateType::Immediate3;
+			break;
 		case 5:
 			dest = MipsImmediateType::Immediate5;
 			break;
-- 
2.43.0


From eb15cc1713889165397c28c149332805383d7da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:12 +0000
Subject: [PATCH 15/40] fix: run another layout pass when an area or region
 moved

---
 Commands/CDirectiveArea.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Commands/CDirectiveArea.cpp b/Commands/CDirectiveArea.cpp
index 4580dd0..f676c54 100644
--- a/Commands/CDirectiveArea.cpp
+++ b/Commands/CDirectiveArea.cpp
@@ -87,12 +87,13 @@ bool CDirectiveArea::Validate(const ValidateState &state)
 	if (fillExpression.isLoaded() || shared)
 		g_fileManager->advanceMemory(areaSize-contentSize);
 
-	if (areaSize != oldAreaSize || contentSize != oldContentSize)
-		result = true;
-
 	int64_t oldFileID = fileID;
 	fileID = g_fileManager->getOpenFileID();
 
+	// autoregions earlier in the source depend on where the area was in the last pass
+	if (fileID != oldFileID || position != oldPosition || areaSize != oldAreaSize || contentSize != oldContentSize)
+		result = true;
+
 	if ((oldFileID != fileID || oldPosition != position || areaSize == 0) && oldAreaSize != 0)
 		Allocations::forgetArea(oldFileID, oldPosition, oldAreaSize);
 	if (areaSize != 0)
-- 
2.43.0


From d90ec5d132519ccaf443247074f933ac2c5e592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:59 +0000
Subject: [PATCH 16/40] fix: run another layout pass when a symbol of a PSX
 object moved

---
 Archs/MIPS/PsxRelocator.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index e32ea11..e3a36a4 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -409,6 +409,15 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int& relocationAddress)
 			relocationAddress++;
 	}
 	
+	auto setLabelValue = [this](Label& label, int64_t value)
+	{
+		// commands before the object already used the value of the last pass
+		if (label.getValue() != value)
+			dataChanged = true;
+		label.setValue(value);
+		label.setDefined(true);
+	};
+
 	// parse/add/relocate symbols
 	bool error = false;
 	for (PsxSymbol& sym: file.symbols)
@@ -418,18 +427,15 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int& relocationAddress)
 		{
 		case PsxSymbolType::Internal:
 		case PsxSymbolType::Function:
-			sym.label->setValue(relocationOffsets[sym.segment]+sym.offset);
-			sym.label->setDefined(true);
+			setLabelValue(*sym.label, relocationOffsets[sym.segment]+sym.offset);
 			break;
 		case PsxSymbolType::InternalID:
 			pos = relocationOffsets[sym.segment]+sym.offset;
-			sym.label->setValue(pos);
-			sym.label->setDefined(true);
+			setLabelValue(*sym.label, pos);
 			symbolOffsets[sym.id] = pos;
 			break;
 		case PsxSymbolType::BSS:
-			sym.label->setValue(relocationAddress);
-			sym.label->setDefined(true);
+			setLabelValue(*sym.label, relocationAddress);
 			symbolOffsets[sym.id] = relocationAddress;
 			relocationAddress += sym.size;
 			
-- 
2.43.0


From 749f57d0b6cf512da6e8fe24eaeeecd4f00df9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:59 +0000
Subject: [PATCH 17/40] fix: run another layout pass when a section label of an
 object moved

---
 Core/ELF/ElfRelocator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 3401bd5..d121240 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -305,7 +305,11 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 			relocationAddress++;
 
 		if (entry.label != nullptr)
+		{
+			if (entry.label->getValue() != relocationAddress)
+				dataChanged = true;
 			entry.label->setValue(relocationAddress);
+		}
 
 		relocationOffsets[index] = relocationAddress;
 		relocationAddress += size;
-- 
2.43.0


From 39e0af0895b38049b1e5d83a104090562d0e4e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 18/40] fix: && and || of floats give 0 or 1

---
 Core/Expression.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index cf2bff7..8290679 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -408,13 +408,13 @@ ExpressionValue ExpressionValue::operator&&(const ExpressionValue& other) const
 		result.intValue = intValue && other.intValue;
 		break;
 	case ExpressionValueCombination::FI:
-		result.floatValue = floatValue && other.intValue;
+		result.intValue = floatValue && other.intValue;
 		break;
 	case ExpressionValueCombination::IF:
-		result.floatValue = intValue && other.floatValue;
+		result.intValue = intValue && other.floatValue;
 		break;
 	case ExpressionValueCombination::FF:
-		result.floatValue = floatValue && other.floatValue;
+		result.intValue = floatValue && other.floatValue;
 		break;
 	default:
 		break;
@@ -434,13 +434,13 @@ ExpressionValue ExpressionValue::operator||(const ExpressionValue& other) const
 		result.intValue = intValue || other.intValue;
 		break;
 	case ExpressionValueCombination::FI:
-		result.floatValue = floatValue || other.intValue;
+		result.intValue = floatValue || other.intValue;
 		break;
 	case ExpressionValueCombination::IF:
-		result.floatValue = intValue || other.floatValue;
+		result.intValue = intValue || other.floatValue;
 		break;
 	case ExpressionValueCombination::FF:
-		result.floatValue = floatValue || other.floatValue;
+		result.intValue = floatValue || other.floatValue;
 		break;
 	default:
 		break;
-- 
2.43.0


From 53b9dbbf1d05802432238c57543b85bc480d0a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 19/40] fix: max() of negative floats

---
 Core/ExpressionFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 51b3c92..5912144 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -286,7 +286,7 @@ ExpressionValue expFuncMax(const Identifier &funcName, const std::vector<Express
 	double floatMax, floatCur;
 	int64_t intMax, intCur;
 
-	floatCur = floatMax = std::numeric_limits<double>::min();
+	floatCur = floatMax = std::numeric_limits<double>::lowest();
 	intCur = intMax = std::numeric_limits<int64_t>::min();
 	bool isInt = true;
 
-- 
2.43.0


From b20aa3a92c51af5edafa1d579be658bd946ee55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 20/40] fix: substr() with a start outside the string is an
 error instead of an exception

---
 Core/ExpressionFunctions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 5912144..c60c948 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -365,6 +365,12 @@ ExpressionValue expFuncSubstr(const Identifier &funcName, const std::vector<Expr
 	GET_PARAM(parameters,1,start);
 	GET_PARAM(parameters,2,count);
 
+	if (start < 0 || (size_t)start > source->size())
+	{
+		Logger::queueError(Logger::Error, "%s: Invalid start %d", funcName, start);
+		return ExpressionValue();
+	}
+
 	return ExpressionValue(source->string().substr((size_t)start,(size_t)count));
 }
 
-- 
2.43.0


From ac76bacad9c7345f174f5d17369c494e8e7c6a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 21/40] fix: readascii() error message lacked an argument

---
 Core/ExpressionFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index c60c948..084456d 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -566,7 +566,7 @@ ExpressionValue expFuncReadAscii(const Identifier &funcName, const std::vector<E
 		file.read(buffer, bytesToRead);
 		if (file.fail())
 		{
-			Logger::queueError(Logger::Error, "Failed to read %d byte(s) from offset 0x%08X of %s", bytesToRead, *fileName);
+			Logger::queueError(Logger::Error, "Failed to read %d byte(s) from offset 0x%08X of %s", bytesToRead, start + progress, *fileName);
 			return ExpressionValue();
 		}
 
-- 
2.43.0


From cf02733709344beb2da55200961aeec5891283a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 22/40] fix: converting a function call to text dereferenced a
 null pointer

---
 Core/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 8290679..dc792f0 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -730,7 +730,7 @@ static std::string escapeString(const std::string& text)
 
 std::string ExpressionInternal::formatFunctionCall()
 {
-	std::string text = valueAs<StringLiteral>().string() + "(";
+	std::string text = valueAs<Identifier>().string() + "(";
 
 	for (size_t i = 0; i < children.size(); i++)
 	{
-- 
2.43.0


From 9212395977b922c464fbc082110271980536170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 23/40] fix: org() of an undefined label is an error

---
 Core/ExpressionFunctions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 084456d..e7c58a2 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -611,6 +611,12 @@ ExpressionValue expLabelFuncOrg(const Identifier &funcName, const std::vector<st
 		if (!label)
 			return ExpressionValue();
 
+		if (!label->isDefined())
+		{
+			Logger::queueError(Logger::Error, "Undefined label \"%s\"", label->getName());
+			return ExpressionValue();
+		}
+
 		return ExpressionValue(parameters.front()->getValue());
 	}
 
-- 
2.43.0


From 27da59a3b35ae8c6133743a7f04c5dd69c9f2b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:14 +0000
Subject: [PATCH 24/40] fix: evaluate only the chosen operand of ?: while
 simplifying constant conditions

---
 Core/Expression.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index dc792f0..2333bbb 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -567,6 +567,24 @@ bool ExpressionInternal::simplify(bool inUnknownOrFalseBlock)
 		break;
 	}
 
+	// only the chosen operand of a conditional expression may be evaluated
+	if (type == OperatorType::TertiaryIf && children[0]->simplify(inUnknownOrFalseBlock))
+	{
+		bool isFalse = children[0]->evaluate() == ExpressionValue(INT64_C(0));
+		std::unique_ptr<ExpressionInternal> chosen = std::move(children[isFalse ? 2 : 1]);
+
+		type = chosen->type;
+		value = std::move(chosen->value);
+		children = std::move(chosen->children);
+		if (type == OperatorType::Identifier)
+		{
+			fileNum = chosen->fileNum;
+			section = chosen->section;
+		}
+
+		return simplify(inUnknownOrFalseBlock);
+	}
+
 	// check if the same applies to all children
 	bool canSimplify = true;
 	for (size_t i = 0; i < children.size(); i++)
-- 
2.43.0


From bf572cfb19532c49c7f9f7337140fc265844662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:48 +0000
Subject: [PATCH 25/40] fix: do not report errors of expressions that may not
 be assembled while simplifying them

---
 Core/Expression.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 2333bbb..ac4fd89 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -589,15 +589,36 @@ bool ExpressionInternal::simplify(bool inUnknownOrFalseBlock)
 	bool canSimplify = true;
 	for (size_t i = 0; i < children.size(); i++)
 	{
-		if (children[i] != nullptr && !children[i]->simplify(inUnknownOrFalseBlock))
+		// it's not known which operand of a conditional expression will be evaluated
+		bool unknown = inUnknownOrFalseBlock || (type == OperatorType::TertiaryIf && i != 0);
+		if (children[i] != nullptr && !children[i]->simplify(unknown))
+			canSimplify = false;
+	}
+
+	// a division that causes a warning must not do so unless it is known that it will be evaluated
+	if (canSimplify && inUnknownOrFalseBlock && (type == OperatorType::Div || type == OperatorType::Mod))
+	{
+		ExpressionValue divisor = children[1]->evaluate();
+		if (divisor.isInt() && (divisor.intValue == 0 || divisor.intValue == -1))
 			canSimplify = false;
 	}
 
 	// if so, this expression can be evaluated into a constant
 	if (canSimplify)
 	{
+		// the same goes for errors
+		if (inUnknownOrFalseBlock)
+			Logger::suppressErrors();
+
 		ExpressionValue value = evaluate();
 
+		if (inUnknownOrFalseBlock)
+		{
+			Logger::unsuppressErrors();
+			if (!value.isValid())
+				return false;
+		}
+
 		switch (value.type)
 		{
 		case ExpressionValueType::Integer:
-- 
2.43.0


From 9e046a08bf615c9fb54ffcbee9a0cbe294a4a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 26/40] fix: restore architecture and section after a block
 that is not assembled

---
 Parser/DirectivesParser.cpp |  4 ++--
 Parser/Parser.cpp           | 39 +++++++++++++++++++++++++++++++++++++
 Parser/Parser.h             |  1 +
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index d20d401..4dbf657 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -237,7 +237,7 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 	}
 
 	parser.pushConditionalResult(condResult);
-	std::unique_ptr<CAssemblerCommand> ifBlock = parser.parseCommandSequence('.', {".else", ".elseif", ".elseifdef", ".elseifndef", ".endif"});
+	std::unique_ptr<CAssemblerCommand> ifBlock = parser.parseConditionalBlock('.', {".else", ".elseif", ".elseifdef", ".elseifndef", ".endif"});
 	parser.popConditionalResult();
 
 	// update the file info so that else commands get the right line number
@@ -271,7 +271,7 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 	parser.pushConditionalResult(elseResult);
 	if (identifier == ".else")
 	{
-		elseBlock = parser.parseCommandSequence('.', {".endif"});
+		elseBlock = parser.parseConditionalBlock('.', {".endif"});
 
 		parser.eatToken();	// eat .endif
 	} else if (identifier == ".elseif")
diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 9f37dc2..98f8786 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -1,6 +1,9 @@
 #include "Parser/Parser.h"
 
+#include "Archs/ARM/Arm.h"
 #include "Archs/Architecture.h"
+#include "Archs/MIPS/Mips.h"
+#include "Archs/SuperH/SuperH.h"
 #include "Commands/CAssemblerLabel.h"
 #include "Commands/CommandSequence.h"
 #include "Core/Common.h"
@@ -21,6 +24,32 @@ inline bool isPartOfList(const Identifier& value, const std::initializer_list<co
 	return false;
 }
 
+// Some directives change what the text after them means while it is still
+// being parsed. This has to be undone for text that is not going to be assembled
+class ParseTimeState
+{
+public:
+	ParseTimeState()
+		: architecture(Architecture::current()), mips(Mips), arm(Arm), superH(SuperH), section(Global.Section)
+	{
+	}
+
+	void restore() const
+	{
+		Mips = mips;
+		Arm = arm;
+		SuperH = superH;
+		Architecture::setCurrent(architecture);
+		Global.Section = section;
+	}
+private:
+	Architecture &architecture;
+	CMipsArchitecture mips;
+	CArmArchitecture arm;
+	CShArchitecture superH;
+	int section;
+};
+
 Parser::Parser()
 {
 	initializingMacro = false;
@@ -173,6 +202,16 @@ std::unique_ptr<CAssemblerCommand> Parser::parseCommandSequence(char indicator,
 	return sequence;
 }
 
+std::unique_ptr<CAssemblerCommand> Parser::parseConditionalBlock(char indicator, const std::initializer_list<const char*> terminators)
+{
+	ParseTimeState state;
+	std::unique_ptr<CAssemblerCommand> block = parseCommandSequence(indicator, terminators);
+	if (!isInsideTrueBlock())
+		state.restore();
+
+	return block;
+}
+
 std::unique_ptr<CAssemblerCommand> Parser::parseFile(TextFile& file, bool virtualFile)
 {
 	FileTokenizer tokenizer;
diff --git a/Parser/Parser.h b/Parser/Parser.h
index 9e14538..b87d6bd 100644
--- a/Parser/Parser.h
+++ b/Parser/Parser.h
@@ -51,6 +51,7 @@ public:
 	bool parseIdentifier(Identifier& dest);
 	std::unique_ptr<CAssemblerCommand> parseCommand();
 	std::unique_ptr<CAssemblerCommand> parseCommandSequence(char indicator = 0, const std::initializer_list<const char*> terminators = {});
+	std::unique_ptr<CAssemblerCommand> parseConditionalBlock(char indicator, const std::initializer_list<const char*> terminators);
 	std::unique_ptr<CAssemblerCommand> parseFile(TextFile& file, bool virtualFile = false);
 	std::unique_ptr<CAssemblerCommand> parseString(const std::string& text);
 	std::unique_ptr<CAssemblerCommand> parseTemplate(const std::string& text, const std::initializer_list<AssemblyTemplateArgument> variables = {});
-- 
2.43.0


From c7b062d21f74b8599f91e9e03851101fb085bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 27/40] fix: ignore settings made inside a block that is not
 assembled

---
 Archs/MIPS/MipsParser.cpp   |  6 ++++--
 Parser/DirectivesParser.cpp | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/Archs/MIPS/MipsParser.cpp b/Archs/MIPS/MipsParser.cpp
index 6ad9dbe..8c070f1 100644
--- a/Archs/MIPS/MipsParser.cpp
+++ b/Archs/MIPS/MipsParser.cpp
@@ -129,13 +129,15 @@ const MipsRegisterDescriptor mipsRspVectorRegisters[] = {
 
 std::unique_ptr<CAssemblerCommand> parseDirectiveResetDelay(Parser& parser, int flags)
 {
-	Mips.SetIgnoreDelay(true);
+	if (parser.isInsideTrueBlock())
+		Mips.SetIgnoreDelay(true);
 	return std::make_unique<DummyCommand>();
 }
 
 std::unique_ptr<CAssemblerCommand> parseDirectiveFixLoadDelay(Parser& parser, int flags)
 {
-	Mips.SetFixLoadDelay(true);
+	if (parser.isInsideTrueBlock())
+		Mips.SetFixLoadDelay(true);
 	return std::make_unique<DummyCommand>();
 }
 
diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index 4dbf657..1291536 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -556,11 +556,13 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveErrorWarning(Parser& parser, in
 
 	if (stringValue == "on")
 	{	
-		Logger::setErrorOnWarning(true);
+		if (parser.isInsideTrueBlock())
+			Logger::setErrorOnWarning(true);
 		return std::make_unique<DummyCommand>();
 	} else if (stringValue == "off")
 	{
-		Logger::setErrorOnWarning(false);
+		if (parser.isInsideTrueBlock())
+			Logger::setErrorOnWarning(false);
 		return std::make_unique<DummyCommand>();
 	}
 
@@ -575,11 +577,13 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveRelativeInclude(Parser& parser,
 
 	if (stringValue == "on")
 	{	
-		Global.relativeInclude = true;
+		if (parser.isInsideTrueBlock())
+			Global.relativeInclude = true;
 		return std::make_unique<DummyCommand>();
 	} else if (stringValue == "off")
 	{
-		Global.relativeInclude = false;
+		if (parser.isInsideTrueBlock())
+			Global.relativeInclude = false;
 		return std::make_unique<DummyCommand>();
 	}
 
@@ -594,11 +598,13 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveNocash(Parser& parser, int flag
 
 	if (stringValue == "on")
 	{	
-		Global.nocash = true;
+		if (parser.isInsideTrueBlock())
+			Global.nocash = true;
 		return std::make_unique<DummyCommand>();
 	} else if (stringValue == "off")
 	{
-		Global.nocash = false;
+		if (parser.isInsideTrueBlock())
+			Global.nocash = false;
 		return std::make_unique<DummyCommand>();
 	}
 
-- 
2.43.0


From 5f4c4e4cacacfb3fd6e7baf41e25055511086688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 28/40] fix: do not register labels of a block that is not
 assembled

---
 Parser/DirectivesParser.cpp | 17 ++++++++++++++++-
 Parser/Parser.cpp           |  4 ++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index 1291536..03192fb 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -305,6 +305,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 			return std::make_unique<DummyCommand>();
 	}
 
+	// don't register the name that is checked if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	std::unique_ptr<CDirectiveConditional> cond;
 	if (exp.isLoaded())
 		cond = std::make_unique<CDirectiveConditional>(type,exp);
@@ -645,6 +649,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveDefineLabel(Parser& parser, int
 		return nullptr;
 	}
 
+	// don't register the label if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	return std::make_unique<CAssemblerLabel>(identifier,Identifier(tok.getOriginalText()),value,thumbMode);
 }
 
@@ -670,7 +678,11 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveFunction(Parser& parser, int fl
 		return nullptr;
 	}
 
-	auto func = std::make_unique<CDirectiveFunction>(Identifier(tok.identifierValue()), Identifier(tok.getOriginalText()));
+	// don't register the function if it's inside a false block
+	std::unique_ptr<CDirectiveFunction> func;
+	if (parser.isInsideTrueBlock())
+		func = std::make_unique<CDirectiveFunction>(Identifier(tok.identifierValue()), Identifier(tok.getOriginalText()));
+
 	std::unique_ptr<CAssemblerCommand> seq = parser.parseCommandSequence('.', {".endfunc",".endfunction",".func",".function"});
 
 	const Token &next = parser.peekToken();
@@ -688,6 +700,9 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveFunction(Parser& parser, int fl
 		}
 	}
 
+	if (func == nullptr)
+		return std::make_unique<DummyCommand>();
+
 	func->setContent(std::move(seq));
 	return func;
 }
diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 98f8786..47acd6a 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -848,6 +848,10 @@ std::unique_ptr<CAssemblerCommand> Parser::parseLabel()
 			return nullptr;
 		}
 
+		// don't register the label if it's inside a false block
+		if (!isInsideTrueBlock())
+			return std::make_unique<DummyCommand>();
+
 		return std::make_unique<CAssemblerLabel>(name,Identifier(start.getOriginalText()));
 	}
 
-- 
2.43.0


From d680be28d8a534262b3e21fab18f3a021f75f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 29/40] fix: do not load files named in a block that is not
 assembled

---
 Archs/MIPS/MipsParser.cpp   | 13 +++++++++++--
 Archs/SuperH/ShParser.cpp   |  4 ++++
 Parser/DirectivesParser.cpp | 12 ++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/MipsParser.cpp b/Archs/MIPS/MipsParser.cpp
index 8c070f1..446465c 100644
--- a/Archs/MIPS/MipsParser.cpp
+++ b/Archs/MIPS/MipsParser.cpp
@@ -151,10 +151,15 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveLoadElf(Parser& parser, int fla
 	if (!list[0].evaluateString(inputName,true))
 		return nullptr;
 
+	if (list.size() == 2 && !list[1].evaluateString(outputName,true))
+		return nullptr;
+
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	if (list.size() == 2)
 	{
-		if (!list[1].evaluateString(outputName,true))
-			return nullptr;
 		return std::make_unique<DirectiveLoadMipsElf>(inputName.path(),outputName.path());
 	} else {
 		return std::make_unique<DirectiveLoadMipsElf>(inputName.path());
@@ -173,6 +178,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveImportObj(Parser& parser, int f
 	if (!list[0].evaluateString(inputName,true))
 		return nullptr;
 	
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	if (list.size() == 2)
 	{
 		Identifier ctorName;
diff --git a/Archs/SuperH/ShParser.cpp b/Archs/SuperH/ShParser.cpp
index 813d6cb..e18dbd6 100644
--- a/Archs/SuperH/ShParser.cpp
+++ b/Archs/SuperH/ShParser.cpp
@@ -35,6 +35,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveShImportObj(Parser& parser, int
 	if (!list[0].evaluateString(inputName,true))
 		return nullptr;
 	
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	if (list.size() == 2)
 	{
 		Identifier ctorName;
diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index 03192fb..39550a7 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -89,6 +89,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveIncbin(Parser& parser, int flag
 	if (!list[0].evaluateString(fileName,false))
 		return nullptr;
 
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	auto incbin = std::make_unique<CDirectiveIncbin>(fileName.path());
 	if (list.size() >= 2)
 		incbin->setStart(list[1]);
@@ -180,6 +184,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveObjImport(Parser& parser, int f
 	if (!list[0].evaluateString(fileName,true))
 		return nullptr;
 
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	if (list.size() == 2)
 	{
 		Identifier ctorName;
@@ -349,6 +357,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveTable(Parser& parser, int flags
 		encoding = getEncodingFromString(encodingName.string());
 	}
 
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	return std::make_unique<TableCommand>(fileName.path(),encoding);
 }
 
-- 
2.43.0


From 5bb86e9682ffba05d7f6a01283625fa6e339a137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:27 +0000
Subject: [PATCH 30/40] fix: do not instantiate macros in false blocks inside
 of blocks with non-trivial condition

---
 Parser/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 47acd6a..591f484 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -773,7 +773,7 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 	}
 
 	// skip macro instantiation in known false blocks
-	if (!isInsideUnknownBlock() && !isInsideTrueBlock())
+	if (!isInsideTrueBlock())
 		return std::make_unique<DummyCommand>();
 
 	// a macro is fully parsed once when it's loaded
-- 
2.43.0


From d7a91c89e5f0534718ae2d03df0af39498e69738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:57 +0000
Subject: [PATCH 31/40] fix: stop at the end of the input when looking for the
 end of a macro argument

---
 Parser/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 591f484..a4d844c 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -650,7 +650,7 @@ std::optional<std::vector<Token>> Parser::extractMacroParameter(const Token &mac
 	int braceCount = 0;
 	int bracketCount = 0;
 
-	while (peekToken().type != TokenType::Separator)
+	while (!atEnd() && peekToken().type != TokenType::Separator)
 	{
 		// if the next token is a comma, only exit the loop if parentheses are balanced
 		auto type = peekToken().type;
-- 
2.43.0


From 69e36ab6a90ba9c597385708751ebe4295ac644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:57 +0000
Subject: [PATCH 32/40] fix: report equs without any tokens instead of
 replacing them endlessly

---
 Parser/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index a4d844c..42e5129 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -371,6 +371,12 @@ void Parser::addEquation(const Token& startToken, const Identifier& name, const
 	// extract tokens
 	TokenizerPosition end = tok.getPosition();
 	std::vector<Token> tokens = tok.getTokens(start, end);
+	if (tokens.empty())
+	{
+		printError(startToken, "Empty equ value for \"%s\"",name);
+		return;
+	}
+
 	size_t index = Tokenizer::addEquValue(tokens);
 
 	for (FileEntry& entry : entries)
-- 
2.43.0


From e500a06679aabd3304fea189d93d73a96ef91425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:57 +0000
Subject: [PATCH 33/40] fix: give up on includes and macros once the recursion
 limit is reached

---
 Parser/Parser.cpp | 10 ++++++++++
 Parser/Parser.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 42e5129..31dc0e3 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -54,6 +54,7 @@ Parser::Parser()
 {
 	initializingMacro = false;
 	overrideFileInfo = false;
+	recursionLimitReached = false;
 	conditionStack.push_back({true,false});
 	clearError();
 }
@@ -316,8 +317,17 @@ bool Parser::matchToken(TokenType type, bool optional)
 
 std::unique_ptr<CAssemblerCommand> Parser::parse(Tokenizer* tokenizer, bool virtualFile, const fs::path& name)
 {
+	// once the limit is reached, nothing else is included or instantiated. Otherwise the
+	// number of attempts can grow exponentially with the depth
+	if (entries.empty())
+		recursionLimitReached = false;
+
+	if (recursionLimitReached)
+		return nullptr;
+
 	if (entries.size() >= 150)
 	{
+		recursionLimitReached = true;
 		Logger::queueError(Logger::Error, "Max include/recursion depth reached");
 		return nullptr;
 	}
diff --git a/Parser/Parser.h b/Parser/Parser.h
index b87d6bd..fdf7f5b 100644
--- a/Parser/Parser.h
+++ b/Parser/Parser.h
@@ -106,6 +106,7 @@ protected:
 	std::set<Identifier> macroLabels;
 	bool initializingMacro;
 	bool error;
+	bool recursionLimitReached;
 	size_t errorLine;
 
 	bool overrideFileInfo;
-- 
2.43.0


From 9df52e243c8202a9385bc14512a7d6a3dc05beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:57 +0000
Subject: [PATCH 34/40] fix: do not crash on unterminated block comments

---
 Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index fa781a8..0cc7c37 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -321,7 +321,7 @@ void FileTokenizer::skipWhitespace()
 				{
 					if (isInputAtEnd())
 					{
-						createToken(TokenType::Invalid,linePos, "Unexpected end of file in block comment");
+						createToken(TokenType::Invalid,0, "Unexpected end of file in block comment");
 						addToken(token);
 						return;
 					}
-- 
2.43.0


From c308d9c6d0387676ca80ea7c3564cc01505eeeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:57 +0000
Subject: [PATCH 35/40] fix: limit the recursion depth of expression functions

---
 Core/ExpressionFunctionHandler.cpp | 34 ++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/Core/ExpressionFunctionHandler.cpp b/Core/ExpressionFunctionHandler.cpp
index a9d3d57..2155aa8 100644
--- a/Core/ExpressionFunctionHandler.cpp
+++ b/Core/ExpressionFunctionHandler.cpp
@@ -7,6 +7,27 @@
 #include "Parser/ExpressionParser.h"
 #include "Parser/Tokenizer.h"
 
+// Limits the depth of expression functions that call each other. Once the limit is reached, no
+// more functions are executed until the outermost one has returned
+class UserFunctionDepth
+{
+public:
+	UserFunctionDepth() { ++depth; }
+
+	~UserFunctionDepth()
+	{
+		if (--depth == 0)
+			limitReached = false;
+	}
+
+	static constexpr int maxDepth = 1000;
+	static thread_local int depth;
+	static thread_local bool limitReached;
+};
+
+thread_local int UserFunctionDepth::depth = 0;
+thread_local bool UserFunctionDepth::limitReached = false;
+
 ExpressionFunctionHandler &ExpressionFunctionHandler::instance()
 {
 	static ExpressionFunctionHandler handler;
@@ -27,6 +48,7 @@ void ExpressionFunctionHandler::reset()
 {
 	entries.clear();
 	architectureFunctions.clear();
+	UserFunctionDepth::limitReached = false;
 }
 
 void ExpressionFunctionHandler::updateArchitecture()
@@ -132,6 +154,18 @@ bool ExpressionFunctionHandler::addUserFunction(const Identifier &name, const st
 			params.push_back(result);
 		}
 
+		if (UserFunctionDepth::limitReached)
+			return {};
+
+		if (UserFunctionDepth::depth >= UserFunctionDepth::maxDepth)
+		{
+			Logger::queueError(Logger::Error, "%s: Max expression function recursion depth reached", functionName);
+			UserFunctionDepth::limitReached = true;
+			return {};
+		}
+
+		UserFunctionDepth depth;
+
 		// instantiate
 		TokenStreamTokenizer tok;
 		tok.init(content);
-- 
2.43.0


From ccb450bda405e7f0ce845495e9b2893a7dcb1e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:57 +0000
Subject: [PATCH 36/40] fix: report endless replacements of equs

---
 Parser/Tokenizer.cpp | 17 +++++++++++++++++
 Parser/Tokenizer.h   |  4 ++++
 2 files changed, 21 insertions(+)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index 0cc7c37..3c46639 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -70,8 +70,11 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 					// replace old token with the new tokens
 					// replace the first token manually so that any iterators
 					// are still guaranteed to be valid
+					size_t depth = it->replacementDepth;
 					(*it) = replacement.value[0];
 					tokens.insert(insertIt,replacement.value.begin()+1, replacement.value.end());
+					for (TokenList::iterator newIt = it; newIt != insertIt; ++newIt)
+						newIt->replacementDepth = depth;
 
 					// If the value at this position didn't change, then just keep going.
 					// Otherwise we'd be stuck in an endless replace loop
@@ -96,6 +99,18 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 				if (nextIt != tokens.end() && nextIt->type == TokenType::Equ)
 					break;
 
+				// an equ value can contain a macro parameter that is replaced with the name
+				// of the equ. don't replace anything else once that's detected
+				size_t depth = it->replacementDepth + 1;
+				if (replacementLimitReached || depth > maxReplacementDepth)
+				{
+					replacementLimitReached = true;
+					std::string text = tfm::format("Recursive replacement of %s", it->getOriginalText());
+					it->type = TokenType::Invalid;
+					it->setValue(std::monostate{}, text);
+					break;
+				}
+
 				// make room for the replacement tokens
 				const std::vector<Token>& replacement = equValues[index];
 				tokens.insert(nextIt, replacement.size()-1, {});
@@ -109,6 +124,7 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 					(*insertIt) = token;
 					insertIt->line = originalToken.line;
 					insertIt->column = originalToken.column;
+					insertIt->replacementDepth = depth;
 					std::advance(insertIt, 1);
 				}
 
@@ -172,6 +188,7 @@ std::vector<Token> Tokenizer::getTokens(TokenizerPosition start, TokenizerPositi
 	{
 		Token tok = *it;
 		tok.checked = false;
+		tok.replacementDepth = 0;
 		result.push_back(tok);
 	}
 
diff --git a/Parser/Tokenizer.h b/Parser/Tokenizer.h
index 4913b14..abaa665 100644
--- a/Parser/Tokenizer.h
+++ b/Parser/Tokenizer.h
@@ -102,6 +102,7 @@ struct Token
 
 protected:
 	bool checked = false;
+	size_t replacementDepth = 0; // number of equs that were replaced to get this token
 
 	using ValueType = std::variant<std::monostate, int64_t, double, StringLiteral, Identifier>;
 	ValueType value;
@@ -161,6 +162,9 @@ private:
 		std::vector<Token> value;
 	};
 
+	static constexpr size_t maxReplacementDepth = 150;
+	bool replacementLimitReached = false;
+
 	Token invalidToken;
 	std::vector<Replacement> replacements;
 	static std::vector<std::vector<Token>> equValues;
-- 
2.43.0


From 14b6046e610f6868c96decd88d8f1e1705c20867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:50 +0000
Subject: [PATCH 37/40] fix: parsing a macro for its labels has no effect on
 the text after it

---
 Archs/MIPS/MipsParser.cpp   | 12 +++++------
 Archs/SuperH/ShParser.cpp   |  4 ++--
 Parser/DirectivesParser.cpp | 40 ++++++++++++++++++-------------------
 Parser/Parser.cpp           |  8 +++++---
 Parser/Parser.h             |  2 ++
 5 files changed, 35 insertions(+), 31 deletions(-)

diff --git a/Archs/MIPS/MipsParser.cpp b/Archs/MIPS/MipsParser.cpp
index 446465c..c2d5eb9 100644
--- a/Archs/MIPS/MipsParser.cpp
+++ b/Archs/MIPS/MipsParser.cpp
@@ -129,14 +129,14 @@ const MipsRegisterDescriptor mipsRspVectorRegisters[] = {
 
 std::unique_ptr<CAssemblerCommand> parseDirectiveResetDelay(Parser& parser, int flags)
 {
-	if (parser.isInsideTrueBlock())
+	if (parser.isInsideAssembledText())
 		Mips.SetIgnoreDelay(true);
 	return std::make_unique<DummyCommand>();
 }
 
 std::unique_ptr<CAssemblerCommand> parseDirectiveFixLoadDelay(Parser& parser, int flags)
 {
-	if (parser.isInsideTrueBlock())
+	if (parser.isInsideAssembledText())
 		Mips.SetFixLoadDelay(true);
 	return std::make_unique<DummyCommand>();
 }
@@ -154,8 +154,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveLoadElf(Parser& parser, int fla
 	if (list.size() == 2 && !list[1].evaluateString(outputName,true))
 		return nullptr;
 
-	// don't load the file if it's inside a false block
-	if (!parser.isInsideTrueBlock())
+	// don't load the file if the directive is not going to be assembled
+	if (!parser.isInsideAssembledText())
 		return std::make_unique<DummyCommand>();
 
 	if (list.size() == 2)
@@ -178,8 +178,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveImportObj(Parser& parser, int f
 	if (!list[0].evaluateString(inputName,true))
 		return nullptr;
 	
-	// don't load the file if it's inside a false block
-	if (!parser.isInsideTrueBlock())
+	// don't load the file if the directive is not going to be assembled
+	if (!parser.isInsideAssembledText())
 		return std::make_unique<DummyCommand>();
 
 	if (list.size() == 2)
diff --git a/Archs/SuperH/ShParser.cpp b/Archs/SuperH/ShParser.cpp
index e18dbd6..06874cc 100644
--- a/Archs/SuperH/ShParser.cpp
+++ b/Archs/SuperH/ShParser.cpp
@@ -35,8 +35,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveShImportObj(Parser& parser, int
 	if (!list[0].evaluateString(inputName,true))
 		return nullptr;
 	
-	// don't load the file if it's inside a false block
-	if (!parser.isInsideTrueBlock())
+	// don't load the file if the directive is not going to be assembled
+	if (!parser.isInsideAssembledText())
 		return std::make_unique<DummyCommand>();
 
 	if (list.size() == 2)
diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index 39550a7..b4d098c 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -89,8 +89,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveIncbin(Parser& parser, int flag
 	if (!list[0].evaluateString(fileName,false))
 		return nullptr;
 
-	// don't load the file if it's inside a false block
-	if (!parser.isInsideTrueBlock())
+	// don't load the file if the directive is not going to be assembled
+	if (!parser.isInsideAssembledText())
 		return std::make_unique<DummyCommand>();
 
 	auto incbin = std::make_unique<CDirectiveIncbin>(fileName.path());
@@ -184,8 +184,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveObjImport(Parser& parser, int f
 	if (!list[0].evaluateString(fileName,true))
 		return nullptr;
 
-	// don't load the file if it's inside a false block
-	if (!parser.isInsideTrueBlock())
+	// don't load the file if the directive is not going to be assembled
+	if (!parser.isInsideAssembledText())
 		return std::make_unique<DummyCommand>();
 
 	if (list.size() == 2)
@@ -313,8 +313,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 			return std::make_unique<DummyCommand>();
 	}
 
-	// don't register the name that is checked if it's inside a false block
-	if (!parser.isInsideTrueBlock())
+	// don't register the name that is checked if it's not going to be assembled
+	if (!parser.isInsideAssembledText())
 		return std::make_unique<DummyCommand>();
 
 	std::unique_ptr<CDirectiveConditional> cond;
@@ -357,8 +357,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveTable(Parser& parser, int flags
 		encoding = getEncodingFromString(encodingName.string());
 	}
 
-	// don't load the file if it's inside a false block
-	if (!parser.isInsideTrueBlock())
+	// don't load the file if the directive is not going to be assembled
+	if (!parser.isInsideAssembledText())
 		return std::make_unique<DummyCommand>();
 
 	return std::make_unique<TableCommand>(fileName.path(),encoding);
@@ -572,12 +572,12 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveErrorWarning(Parser& parser, in
 
 	if (stringValue == "on")
 	{	
-		if (parser.isInsideTrueBlock())
+		if (parser.isInsideAssembledText())
 			Logger::setErrorOnWarning(true);
 		return std::make_unique<DummyCommand>();
 	} else if (stringValue == "off")
 	{
-		if (parser.isInsideTrueBlock())
+		if (parser.isInsideAssembledText())
 			Logger::setErrorOnWarning(false);
 		return std::make_unique<DummyCommand>();
 	}
@@ -593,12 +593,12 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveRelativeInclude(Parser& parser,
 
 	if (stringValue == "on")
 	{	
-		if (parser.isInsideTrueBlock())
+		if (parser.isInsideAssembledText())
 			Global.relativeInclude = true;
 		return std::make_unique<DummyCommand>();
 	} else if (stringValue == "off")
 	{
-		if (parser.isInsideTrueBlock())
+		if (parser.isInsideAssembledText())
 			Global.relativeInclude = false;
 		return std::make_unique<DummyCommand>();
 	}
@@ -614,12 +614,12 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveNocash(Parser& parser, int flag
 
 	if (stringValue == "on")
 	{	
-		if (parser.isInsideTrueBlock())
+		if (parser.isInsideAssembledText())
 			Global.nocash = true;
 		return std::make_unique<DummyCommand>();
 	} else if (stringValue == "off")
 	{
-		if (parser.isInsideTrueBlock())
+		if (parser.isInsideAssembledText())
 			Global.nocash = false;
 		return std::make_unique<DummyCommand>();
 	}
@@ -661,8 +661,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveDefineLabel(Parser& parser, int
 		return nullptr;
 	}
 
-	// don't register the label if it's inside a false block
-	if (!parser.isInsideTrueBlock())
+	// don't register the label if it's not going to be assembled
+	if (!parser.isInsideAssembledText())
 		return std::make_unique<DummyCommand>();
 
 	return std::make_unique<CAssemblerLabel>(identifier,Identifier(tok.getOriginalText()),value,thumbMode);
@@ -690,9 +690,9 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveFunction(Parser& parser, int fl
 		return nullptr;
 	}
 
-	// don't register the function if it's inside a false block
+	// don't register the function if it's not going to be assembled
 	std::unique_ptr<CDirectiveFunction> func;
-	if (parser.isInsideTrueBlock())
+	if (parser.isInsideAssembledText())
 		func = std::make_unique<CDirectiveFunction>(Identifier(tok.identifierValue()), Identifier(tok.getOriginalText()));
 
 	std::unique_ptr<CAssemblerCommand> seq = parser.parseCommandSequence('.', {".endfunc",".endfunction",".func",".function"});
@@ -760,8 +760,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveInclude(Parser& parser, int fla
 		encoding = getEncodingFromString(encodingName.string());
 	}
 
-	// don't include the file if it's inside a false block
-	if (!parser.isInsideTrueBlock())
+	// don't include the file if the directive is not going to be assembled
+	if (!parser.isInsideAssembledText())
 		return std::make_unique<DummyCommand>();
 
 	if (!fs::exists(fileName))
diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 31dc0e3..a14db78 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -528,7 +528,7 @@ bool Parser::checkExpFuncDefinition()
 	}
 
 	// if we are in a known false block, don't define the function
-	if (!isInsideTrueBlock())
+	if (!isInsideAssembledText())
 		return true;
 
 	if(nextToken().type != TokenType::Separator)
@@ -807,7 +807,9 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 		// parse the short lived next command
 		macroTokenizer.init(macro.content);
 		Logger::suppressErrors();
+		ParseTimeState state;
 		std::unique_ptr<CAssemblerCommand> command =  parse(&macroTokenizer,true);
+		state.restore();
 		Logger::unsuppressErrors();
 
 		macro.labels = macroLabels;
@@ -864,8 +866,8 @@ std::unique_ptr<CAssemblerCommand> Parser::parseLabel()
 			return nullptr;
 		}
 
-		// don't register the label if it's inside a false block
-		if (!isInsideTrueBlock())
+		// don't register the label if it's not going to be assembled
+		if (!isInsideAssembledText())
 			return std::make_unique<DummyCommand>();
 
 		return std::make_unique<CAssemblerLabel>(name,Identifier(start.getOriginalText()));
diff --git a/Parser/Parser.h b/Parser/Parser.h
index fdf7f5b..c2a0ecc 100644
--- a/Parser/Parser.h
+++ b/Parser/Parser.h
@@ -67,6 +67,8 @@ public:
 	void pushConditionalResult(ConditionalResult cond);
 	void popConditionalResult() { conditionStack.pop_back(); };
 	bool isInsideTrueBlock() { return conditionStack.back().inTrueBlock; }
+	// text inside of false blocks and macros that are only being checked for labels is not assembled
+	bool isInsideAssembledText() { return isInsideTrueBlock() && !initializingMacro; }
 	bool isInsideUnknownBlock() { return conditionStack.back().inUnknownBlock; }
 
 	void printError(const Token &token, const std::string &text);
-- 
2.43.0


From cd0a65b7093df42ae3f4853da042ee66e8145627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 38/40] fix: an error in one statement doesn't skip a later one

---
 Parser/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index a14db78..134dfc9 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -145,6 +145,9 @@ std::unique_ptr<CAssemblerCommand> Parser::parseCommandSequence(char indicator,
 	bool foundTermination = false;
 	while (!atEnd())
 	{
+		// errors of earlier statements have already been handled
+		clearError();
+
 		const Token &next = peekToken();
 
 		if(next.type == TokenType::Separator)
-- 
2.43.0


From 68101af0aa6fa9bb4f6c13f426fd1f11242a9664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 39/40] fix: report macro definitions with an invalid name or
 parameter

---
 Parser/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 134dfc9..ff379f6 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -587,14 +587,20 @@ bool Parser::checkMacroDefinition()
 
 	// load name
 	if (!parameters[0].evaluateIdentifier(macro.name))
+	{
+		printError(first, "Invalid macro name");
 		return false;
+	}
 
 	// load parameters
 	for (size_t i = 1; i < parameters.size(); i++)
 	{
 		Identifier name;
 		if (!parameters[i].evaluateIdentifier(name))
+		{
+			printError(first, "Invalid macro parameter name");
 			return false;
+		}
 
 		macro.parameters.push_back(name);
 	}
-- 
2.43.0


From 611ceeee08338cd2b9085e3a616a64769b98b4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 40/40] fix: a duplicate expression function doesn't skip the
 statement after it

---
 Parser/Parser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index ff379f6..7c7411e 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -534,16 +534,16 @@ bool Parser::checkExpFuncDefinition()
 	if (!isInsideAssembledText())
 		return true;
 
-	if(nextToken().type != TokenType::Separator)
+	// duplicate check
+	if (ExpressionFunctionHandler::instance().find(functionName))
 	{
-		printError(first, ".expfunc directive not terminated");
+		printError(first, "Expression function \"%s\" already declared", functionName);
 		return false;
 	}
 
-	// duplicate check
-	if (ExpressionFunctionHandler::instance().find(functionName))
+	if(nextToken().type != TokenType::Separator)
 	{
-		printError(first, "Expression function \"%s\" already declared", functionName);
+		printError(first, ".expfunc directive not terminated");
 		return false;
 	}
 
-- 
2.43.0

