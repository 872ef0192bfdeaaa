A='Core/Assembler.cpp'
THR='''		std::thread tempThread(writeTempData);
		std::thread symThread(writeSymData);

		content->Encode();

		tempThread.join();
		symThread.join();
'''
MUT={
 'op[]':('C03',1,[('Core/Allocations.cpp','	return maxExtent - usage;','	return maxExtent - allocations[key].usage;')]),
 'nojoin':('C03',1,[(A,'		symThread.join();\n','		symThread.detach();\n')]),
 'latejoin':('C03',1,[(A,'		content->Encode();\n\n		tempThread.join();\n		symThread.join();\n','		content->Encode();\n		if (Logger::hasError()) { tempThread.detach(); symThread.join(); return false; }\n		tempThread.join();\n		symThread.join();\n')]),
 'earlyread':('C03',1,[(A,'		tempThread.join();\n		symThread.join();\n','		if (Logger::hasError()) Logger::printError(Logger::Warning, "x");\n		tempThread.join();\n		symThread.join();\n')]),
 'noseq':('C03',1,[(A,'		writeSymData();\n		content->Encode();\n','		content->Encode();\n')]),
 'mutable':('C03',1,[('Commands/CDirectiveFile.h','	int64_t position;\n','	mutable int64_t position;\n'),('Commands/CDirectiveFile.cpp','	case Physical:\n		g_fileManager->seekPhysical(position);','	case Physical:\n		position &= 0xFFFFFFFF;\n		g_fileManager->seekPhysical(position);')]),
 'static':('C03',1,[('Core/SymbolTable.cpp','int64_t SymbolTable::getUniqueLabelName','int64_t SymbolTable::getUniqueLabelName')]) if False else ('C03',1,[('Core/Common.cpp','const std::string &FileList::string(size_t fileIndex) const\n{','const std::string &FileList::string(size_t fileIndex) const\n{\n	static size_t last = 0; last = fileIndex;'),('Core/FileManager.cpp','bool FileManager::advanceMemory(size_t bytes)\n{','bool FileManager::advanceMemory(size_t bytes)\n{\n	Global.fileList.string(0);')]),
 'logmutex':('C03',1,[('Core/Misc.cpp','	std::lock_guard<std::mutex> lock(loggerMutex);\n	std::string errorText','	std::string errorText')]),
 'elfaddr':('C03',1,[('Archs/MIPS/MipsElfFile.cpp','tempData.writeLine(virtualAddress,tfm::format(".loadelf \\"%s\\"",','tempData.writeLine(g_fileManager->getVirtualAddress(),tfm::format(".loadelf \\"%s\\"",')]),
 'symsize':('C03',1,[('Commands/CDirectiveFile.cpp','void CDirectiveIncbin::Encode() const\n{','void CDirectiveIncbin::Encode() const\n{\n	Global.FileInfo.TotalLineCount++;')]),
 # refactorings
 'inline':('C03',0,[(A,'std::thread tempThread(writeTempData);','std::thread tempThread([&]() { writeTempData(); });')]),
 'vec':('C03',0,[(A,THR,'''		std::vector<std::thread> threads;
		threads.emplace_back(writeTempData);
		threads.emplace_back(writeSymData);
		content->Encode();
		for (std::thread& t : threads)
			t.join();
''')]),
 'vecidx':('C03',0,[(A,THR,'''		std::vector<std::thread> threads;
		threads.emplace_back(writeTempData);
		threads.push_back(std::thread(writeSymData));
		content->Encode();
		for (size_t i = 0; i < threads.size(); i++)
			threads[i].join();
''')]),
 'order':('C03',0,[(A,THR,'''		std::thread symThread(writeSymData);
		std::thread tempThread(writeTempData);
		content->Encode();
		symThread.join();
		tempThread.join();
''')]),
 'async':('C03',0,[(A,'#include <thread>','#include <thread>\n#include <future>'),(A,THR,'''		auto a = std::async(std::launch::async, writeTempData);
		auto b = std::async(std::launch::async, writeSymData);
		content->Encode();
		a.get();
		b.get();
''')]),
 'helper':('C03',0,[(A,'bool encodeAssembly(','''template<typename T, typename S>
static void outputParallel(CAssemblerCommand& c, T& t, S& s)
{
	std::thread tempThread([&]() { t(); });
	std::thread symThread([&]() { s(); });
	c.Encode();
	tempThread.join();
	symThread.join();
}

bool encodeAssembly('''),(A,THR,'		outputParallel(*content, writeTempData, writeSymData);\n')]),
 'helper2':('C03',0,[(A,'bool encodeAssembly(','''static void outputTemp(const CAssemblerCommand& c, TempData& t)
{
	t.start();
	if (t.isOpen())
		c.writeTempData(t);
	t.end();
}

bool encodeAssembly('''),(A,'''		tempData.start();
		if (tempData.isOpen())
			content->writeTempData(tempData);
		tempData.end();
''','		outputTemp(*content, tempData);\n')]),
 'posn':('C03',0,[('Core/Misc.cpp','std::string Logger::formatError(','static std::string here()\n{\n	const auto& fileName = Global.fileList.relativeString(Global.FileInfo.FileNum);\n	return tfm::format("%s(%d) ", fileName, Global.FileInfo.LineNumber);\n}\n\nstd::string Logger::formatError('),('Core/Misc.cpp','''		const auto& fileName = Global.fileList.relativeString(Global.FileInfo.FileNum);
		position = tfm::format("%s(%d) ", fileName, Global.FileInfo.LineNumber);
	}''','		position = here();\n	}')]),
}
