A='Core/Assembler.cpp'; M='Core/Misc.cpp'
MUT={
'base':('C02',0,[]),
'sev':('C02',1,[(M,"	case FatalError:\n		error = true;\n		fatalError","	case FatalError:\n		fatalError")]),
'warn':('C02',1,[(M,"		if (errorOnWarning)\n			error = true;","		if (errorOnWarning && !silent)\n			error = true;")]),
'silent':('C02',1,[(M,"	if (!silent)\n		printLine(errorText);\n\n	setFlags(type);","	if (silent)\n		return;\n	printLine(errorText);\n\n	setFlags(type);")]),
'qskip':('C02',1,[(M,"		if (!silent)\n			printLine(queue[i].text);\n","		if (silent)\n			continue;\n		printLine(queue[i].text);\n")]),
'qoff':('C02',1,[(M,"for (size_t i = 0; i < queue.size(); i++)","for (size_t i = 1; i < queue.size(); i++)")]),
'qtype':('C02',1,[(M,"entry.type = type;","entry.type = type == FatalError ? Error : Warning;")]),
'final':('C02',1,[(A,"	if (Logger::hasError())\n	{\n		return false;\n	}\n\n	return true;","	return true;"),(A,"	if (Logger::hasError())\n	{\n		return false;\n	}\n\n	return result;","	return result;")]),
'final1':('C02',0,[(A,"	if (Logger::hasError())\n	{\n		return false;\n	}\n\n	return true;","	return true;")]),
'final2':('C02',1,[(A,"	if (Logger::hasError())\n	{\n		return false;\n	}\n\n	return result;","	return result;")]),
'noparseq':('C02',1,[(A,"std::unique_ptr<CAssemblerCommand> content = parser.parseFile(input);\n	Logger::printQueue();","std::unique_ptr<CAssemblerCommand> content = parser.parseFile(input);")]),
'exit':('C02',1,[('Main/CommandLineInterface.cpp','			Logger::printLine("Aborting.");\n\n		return 1;','			Logger::printLine("Aborting.");\n\n		return settings.silent ? 0 : 1;')]),
'suppress':('C02',1,[('Parser/Parser.cpp','		Logger::unsuppressErrors();','		if (macro.counter < 5)\n		Logger::unsuppressErrors();')]),
'retres':('C02',1,[(A,"	if (Logger::hasError())\n	{\n		return false;\n	}\n\n	return result;","	return result || !Logger::hasError();")]),
'ref1':('C02',0,[(M,"	switch (type)\n	{\n	case Warning:\n		if (errorOnWarning)\n			error = true;\n		break;\n	case Error:\n		error = true;\n		break;\n	case FatalError:\n		error = true;\n		fatalError = true;\n		break;\n	case Notice:\n		break;\n	}","	if (type == FatalError)\n		fatalError = true;\n	if (type == Error || type == FatalError || (type == Warning && errorOnWarning))\n		error = true;")]),
'ref2':('C02',0,[(M,"	for (size_t i = 0; i < queue.size(); i++)\n	{\n		errors.push_back(queue[i].text);\n\n		if (!silent)\n			printLine(queue[i].text);\n\n		setFlags(queue[i].type);\n	}","	for (const auto& e : queue)\n	{\n		setFlags(e.type);\n		errors.push_back(e.text);\n		if (silent)\n			continue;\n		printLine(e.text);\n	}")]),
'ref3':('C02',0,[(A,"	if (Logger::hasError())\n	{\n		return false;\n	}\n\n	return result;","	return result && !Logger::hasError();")]),
'ref4':('C02',0,[(M,"	QueueEntry entry;\n	entry.type = type;\n	entry.text = formatError(type,text.data());\n	queue.push_back(entry);","	queue.push_back(QueueEntry{type, formatError(type,text.data())});")]),
'ref5':('C02',0,[('Main/CommandLineInterface.cpp',"	if (!runArmips(settings))\n	{\n		if (!settings.silent)\n			Logger::printLine(\"Aborting.\");\n\n		return 1;\n	}\n\n	return 0;","	const bool ok = runArmips(settings);\n	if (!ok && !settings.silent)\n		Logger::printLine(\"Aborting.\");\n\n	return ok ? 0 : 1;")]),
}
