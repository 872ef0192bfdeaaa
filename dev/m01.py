A='Core/Assembler.cpp'; F='Core/FileManager.cpp'
MUT={
'nogate':('C01',1,[(A,"	Logger::printQueue();\n	if (Logger::hasError())\n	{\n		return false;\n	}\n\n#ifdef","	Logger::printQueue();\n\n#ifdef")]),
'noflush':('C01',1,[(A,"	Logger::printQueue();\n	if (Logger::hasError())\n	{\n		return false;\n	}\n\n#ifdef","	if (Logger::hasError())\n	{\n		return false;\n	}\n\n#ifdef")]),
'overlaplate':('C01',1,[(A,"	Allocations::validateOverlap();\n\n	Logger::printQueue();\n	if (Logger::hasError())\n	{\n		return false;\n	}\n","	Logger::printQueue();\n	if (Logger::hasError())\n	{\n		return false;\n	}\n	Allocations::validateOverlap();\n")]),
'checkfalse':('C01',1,[('Commands/CDirectiveFile.cpp','g_fileManager->openFile(file,true);','g_fileManager->openFile(file,false);')]),
'probe':('C01',1,[(F,'temp.open(fileName, exists ? flagsOpenExisting : flagsOverwrite);','temp.open(fileName, flagsOverwrite);')]),
'probe2':('C01',1,[(F,'		if (!exists)\n			fs::remove(fileName, errorCode);\n\n		return true;','		fs::remove(fileName, errorCode);\n\n		return true;')]),
'probe3':('C01',1,[(F,'		if (!exists)\n			fs::remove(fileName, errorCode);\n\n		return true;','		return true;')]),
'elfopened':('C01',1,[('Archs/MIPS/MipsElfFile.cpp','opened = !onlyCheck;','opened = true;')]),
'memmode':('C01',1,[(A,'openFile(Global.memoryFile,true)','openFile(Global.memoryFile,false)')]),
'tempearly':('C01',1,[(A,"	Allocations::validateOverlap();\n","	Allocations::validateOverlap();\n	tempData.start();\n")]),
'gatefatal':('C01',1,[(A,"	Logger::printQueue();\n	if (Logger::hasError())\n	{\n		return false;\n	}\n\n#ifdef","	Logger::printQueue();\n	if (Logger::hasFatalError())\n	{\n		return false;\n	}\n\n#ifdef")]),
'clearlate':('C01',1,[(A,"	Allocations::validateOverlap();\n","	Logger::clearQueue();\n	Allocations::validateOverlap();\n")]),
'ref_helper':('C01',0,[(A,"	Logger::printQueue();\n	if (Logger::hasError())\n	{\n		return false;\n	}\n\n#ifdef","	const bool clean = flushed();\n	if (!clean)\n	{\n		return false;\n	}\n\n#ifdef"),(A,"bool encodeAssembly(","static bool flushed() { Logger::printQueue(); return Logger::hasError() == false; }\nbool encodeAssembly(")]),
'ref_early':('C01',0,[(A,"	bool result = !Logger::hasError();\n	if (result && content != nullptr)\n		result = encodeAssembly(std::move(content), symData, tempData);","	bool result = true;\n	if (Logger::hasError())\n		result = false;\n	else if (content)\n		result = encodeAssembly(std::move(content), symData, tempData);")]),
'ref_probe':('C01',0,[(F,"		exists = fs::exists(fileName);\n\n		temp.open(fileName, exists ? flagsOpenExisting : flagsOverwrite);","		exists = fs::exists(fileName);\n		if (exists)\n			temp.open(fileName, flagsOpenExisting);\n		else\n			temp.open(fileName, flagsOverwrite);")]),
'ref_probehelper':('C01',0,[(F,"	case Create:\n		// open file with writee access. if it didn't exist before, remove it afterwards\n		exists = fs::exists(fileName);\n\n		temp.open(fileName, exists ? flagsOpenExisting : flagsOverwrite);\n		if (!temp.is_open())\n		{\n			Logger::queueError(Logger::FatalError, \"Could not create file %s\",fileName.u8string());\n			return false;\n		}\n		temp.close();\n\n		if (!exists)\n			fs::remove(fileName, errorCode);\n\n		return true;","	case Create:\n		return probe(fileName);"),(F,"bool GenericAssemblerFile::open(bool onlyCheck)","static bool probe(const fs::path& fileName)\n{\n	std::error_code errorCode;\n	const bool missing = !fs::exists(fileName);\n	fs::ofstream temp;\n	const auto fl = missing ? (fs::ofstream::out | fs::ofstream::trunc | fs::ofstream::binary) : (fs::ofstream::in | fs::ofstream::out | fs::ofstream::binary);\n	temp.open(fileName, fl);\n	if (!temp.is_open())\n	{\n		Logger::queueError(Logger::FatalError, \"Could not create file %s\",fileName.u8string());\n		return false;\n	}\n	temp.close();\n	if (missing)\n		fs::remove(fileName, errorCode);\n	return true;\n}\nbool GenericAssemblerFile::open(bool onlyCheck)")]),
}
