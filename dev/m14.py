P='Parser/Parser.cpp'; PH='Parser/Parser.h'; D='Parser/DirectivesParser.cpp'; M='Archs/MIPS/MipsParser.cpp'; S='Archs/SuperH/ShParser.cpp'; F='Commands/CDirectiveFile.cpp'; A='Archs/ARM/ArmParser.cpp'
def m(x,*e): return ('C14',x,[(e[i],e[i+1],e[i+2]) for i in range(0,len(e),3)])
MUT={
 'equ':m(1,P,'			// skip the equ if it\'s inside a false conditional block\n			if (!isInsideTrueBlock())\n				return true;\n',''),
 'equtrial':m(1,P,'				macroLabels.insert(name);\n				return true;\n','				macroLabels.insert(name);\n'),
 'expfunc':m(1,P,'	// if we are in a known false block, don\'t define the function\n	if (!isInsideAssembledText())\n		return true;\n',''),
 'expfunctrial':m(1,P,'	// if we are in a known false block, don\'t define the function\n	if (!isInsideAssembledText())','	if (!isInsideTrueBlock())'),
 'macro':m(1,P,'	// if we are in a known false block, don\'t define the macro\n	if (!isInsideTrueBlock())\n		return true;\n',''),
 'macrocall':m(1,P,'	// skip macro instantiation in known false blocks\n	if (!isInsideTrueBlock())','	if (!isInsideTrueBlock() && !isInsideUnknownBlock())'),
 'label':m(1,P,"		if (!isInsideAssembledText())\n			return std::make_unique<DummyCommand>();\n\n		return std::make_unique<CAssemblerLabel>","		return std::make_unique<CAssemblerLabel>"),
 'labeltrial':m(1,P,"		if (!isInsideAssembledText())\n			return std::make_unique<DummyCommand>();\n\n		return std::make_unique<CAssemblerLabel>","		if (!isInsideTrueBlock())\n			return std::make_unique<DummyCommand>();\n\n		return std::make_unique<CAssemblerLabel>"),
 'add':m(1,P,'		// omit commands inside blocks that are trivially false\n		if (!isInsideTrueBlock())\n		{\n			continue;\n		}\n',''),
 'addunk':m(1,P,'		if (!isInsideTrueBlock())\n		{\n			continue;','		if (!isInsideTrueBlock() && !isInsideUnknownBlock())\n		{\n			continue;'),
 'addless':m(1,P,'		if (!isInsideTrueBlock())\n		{\n			continue;','		if (!isInsideTrueBlock() || isInsideUnknownBlock())\n		{\n			continue;'),
 'norestore':m(1,P,'	if (!isInsideTrueBlock())\n		state.restore();\n',''),
 'alwaysrestore':m(1,P,'	if (!isInsideTrueBlock())\n		state.restore();\n','	state.restore();\n'),
 'forgetarm':m(1,P,'		Arm = arm;\n',''),
 'forgetsection':m(1,P,'		Global.Section = section;\n',''),
 'forgetfuncs':m(1,P,'		Architecture::setCurrent(architecture);\n',''),
 'elseplain':m(1,D,"		elseBlock = parser.parseConditionalBlock('.', {\".endif\"});","		elseBlock = parser.parseCommandSequence('.', {\".endif\"});"),
 'trialnorestore':m(1,P,'		state.restore();\n		Logger::unsuppressErrors();','		Logger::unsuppressErrors();'),
 'trialsup':m(1,P,'		Logger::suppressErrors();\n		ParseTimeState state;','		ParseTimeState state;'),
 'trialflag':m(1,P,'		macroLabels.clear();\n		\n		initializingMacro = false;','		macroLabels.clear();\n		'),
 'trialnest':m(1,P,'	if (initializingMacro)\n		return std::make_unique<DummyCommand>();\n\n	// the first','	// the first'),
 'pushtrue':m(1,P,'info.inTrueBlock && cond != ConditionalResult::False','cond != ConditionalResult::False'),
 'pushunk':m(1,P,'info.inTrueBlock && cond != ConditionalResult::False','info.inTrueBlock && cond == ConditionalResult::True'),
 'pushunk2':m(1,P,'info.inUnknownBlock || cond == ConditionalResult::Unknown','cond == ConditionalResult::Unknown'),
 'elseunk':m(1,D,'		elseResult = condResult;\n','		elseResult = ConditionalResult::True;\n'),
 'elsefalse':m(1,D,'	case ConditionalResult::False:\n		elseResult = ConditionalResult::True;','	case ConditionalResult::False:\n		elseResult = ConditionalResult::Unknown;'),
 'elsetrue':m(1,D,'	case ConditionalResult::True:\n		elseResult = ConditionalResult::False;','	case ConditionalResult::True:\n		elseResult = ConditionalResult::Unknown;'),
 'nopushelse':m(1,D,'	parser.pushConditionalResult(elseResult);\n	if (identifier == ".else")\n	{\n','	if (identifier == ".else")\n	{\n		parser.pushConditionalResult(elseResult);\n',D,'	} else if (identifier != ".endif")\n	{\n		parser.popConditionalResult();\n		return nullptr;\n	}\n\n	parser.popConditionalResult();','	} else if (identifier != ".endif")\n	{\n		return nullptr;\n	}\n\n	if (identifier == ".else") parser.popConditionalResult();'),
 'popmiss':m(1,D,'		return nullptr;\n	}\n\n	parser.popConditionalResult();\n','		return nullptr;\n	}\n\n	if (identifier != ".endif")\n		parser.popConditionalResult();\n'),
 'swapblocks':m(1,D,'cond->setContent(std::move(ifBlock),std::move(elseBlock))','cond->setContent(std::move(elseBlock),std::move(ifBlock))'),
 'retelse':m(1,D,'		if (elseBlock != nullptr)\n			return elseBlock;\n','		if (elseBlock != nullptr)\n			return ifBlock;\n'),
 'ifndefdef':m(1,D,'		elseBlock = parseDirectiveConditional(parser,DIRECTIVE_COND_IFNDEF);','		elseBlock = parseDirectiveConditional(parser,DIRECTIVE_COND_IFDEF);'),
 'condnz':m(1,D,'result.intValue != 0 ? ConditionalResult::True','result.intValue == 0 ? ConditionalResult::True'),
 'condgt':m(0,D,'if (result.isInt())\n				condResult','if (result.type == ExpressionValueType::Integer)\n				condResult'),
 'incbin':m(1,D,'	if (!parser.isInsideAssembledText())\n		return std::make_unique<DummyCommand>();\n\n	auto incbin','	auto incbin'),
 'ifdef':m(1,D,"	if (!parser.isInsideAssembledText())\n		return std::make_unique<DummyCommand>();\n\n	std::unique_ptr<CDirectiveConditional> cond;","	std::unique_ptr<CDirectiveConditional> cond;"),
 'nocash':m(1,D,'		if (parser.isInsideAssembledText())\n			Global.nocash = true;','		Global.nocash = true;'),
 'relinc':m(1,D,'		if (parser.isInsideAssembledText())\n			Global.relativeInclude = true;','		Global.relativeInclude = true;'),
 'reset':m(0,M,'	if (parser.isInsideAssembledText())\n','	if (parser.isInsideTrueBlock())\n'),
 'elf':m(1,M,'	if (!parser.isInsideAssembledText())\n','	if (!parser.isInsideTrueBlock())\n'),
 'include':m(1,D,'	// don\'t include the file if the directive is not going to be assembled\n	if (!parser.isInsideAssembledText())','	if (false)'),
 # new side effects planted elsewhere
 'encodingstate':m(1,D,'std::unique_ptr<CAssemblerCommand> parseDirectiveTable(Parser& parser, int flags)\n{\n','std::unique_ptr<CAssemblerCommand> parseDirectiveTable(Parser& parser, int flags)\n{\n	Global.Table.clear();\n'),
 'opencreate':m(1,F,'	g_fileManager->addFile(file);','	g_fileManager->addFile(file);\n	if (!fs::exists(fileName)) Logger::queueError(Logger::Warning, "x");'),
 'memmode':m(1,D,'	auto file = std::make_unique<CDirectiveFile>();\n	file->initClose();','	Global.memoryMode = false;\n	auto file = std::make_unique<CDirectiveFile>();\n	file->initClose();'),
 # behaviour kept
 'q_var':m(0,P,'	ParseTimeState state;\n	std::unique_ptr<CAssemblerCommand> block = parseCommandSequence(indicator, terminators);\n	if (!isInsideTrueBlock())\n		state.restore();\n\n	return block;','	const ParseTimeState before;\n	auto result = parseCommandSequence(indicator, terminators);\n	const bool discard = !isInsideTrueBlock();\n	if (discard)\n	{\n		before.restore();\n	}\n	return result;'),
 'q_split':m(0,P,'		if (!isInsideTrueBlock())\n		{\n			continue;\n		}\n\n		sequence->addCommand(std::move(cmd));','		if (isInsideTrueBlock())\n			sequence->addCommand(std::move(cmd));'),
 'q_else':m(0,D,'	ConditionalResult elseResult;\n	switch (condResult)\n	{\n	case ConditionalResult::True:\n		elseResult = ConditionalResult::False;\n		break;\n	case ConditionalResult::False:\n		elseResult = ConditionalResult::True;\n		break;\n	case ConditionalResult::Unknown:\n		elseResult = condResult;\n		break;\n	}\n','	ConditionalResult elseResult = ConditionalResult::Unknown;\n	if (condResult == ConditionalResult::True)\n		elseResult = ConditionalResult::False;\n	else if (condResult == ConditionalResult::False)\n		elseResult = ConditionalResult::True;\n'),
 'q_push':m(0,P,'	info.inTrueBlock = info.inTrueBlock && cond != ConditionalResult::False;\n	info.inUnknownBlock = info.inUnknownBlock || cond == ConditionalResult::Unknown;\n','	if (cond == ConditionalResult::Unknown)\n		info.inUnknownBlock = true;\n	else if (cond == ConditionalResult::False)\n		info.inTrueBlock = false;\n'),
 'q_guard':m(0,D,'	if (!parser.isInsideAssembledText())\n		return std::make_unique<DummyCommand>();\n\n	std::unique_ptr<CDirectiveConditional> cond;','	const bool assembled = parser.isInsideAssembledText();\n	if (!assembled)\n		return std::make_unique<DummyCommand>();\n\n	std::unique_ptr<CDirectiveConditional> cond;'),
 'q_equ':m(0,P,'			if (!isInsideTrueBlock())\n				return true;\n\n			// equs','			if (isInsideTrueBlock() == false)\n				return true;\n\n			// equs'),
 'q_macro':m(0,P,'	// skip macro instantiation in known false blocks\n	if (!isInsideTrueBlock())\n		return std::make_unique<DummyCommand>();\n\n	// a macro is fully parsed once when it\'s loaded\n	// to gather all labels. it\'s not necessary to\n	// instantiate other macros at that time\n	if (initializingMacro)\n		return','	if (!isInsideTrueBlock() || initializingMacro)\n		return'),
 'q_helper':m(0,P,'	macros[macro.name] = macro;\n	return true;','	macros.emplace(macro.name, macro);\n	return true;'),
 'q_nocash':m(0,D,'		if (parser.isInsideAssembledText())\n			Global.nocash = true;','		Global.nocash = parser.isInsideAssembledText() ? true : Global.nocash;'),
}
