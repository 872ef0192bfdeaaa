P='Parser/Parser.cpp'; PH='Parser/Parser.h'; D='Parser/DirectivesParser.cpp'; M='Archs/MIPS/MipsParser.cpp'; S='Archs/SuperH/ShParser.cpp'; A='Archs/ARM/ArmParser.cpp'; X='Core/Expression.cpp'
H='Core/ExpressionFunctionHandler.cpp'
def m(x,*e): return ('C15',x,[(e[i],e[i+1],e[i+2]) for i in range(0,len(e),3)])
TRIAL='''		std::unique_ptr<CAssemblerCommand> command =  parse(&macroTokenizer,true);
		state.restore();
		Logger::unsuppressErrors();
'''
MUT={
 'ifpop':m(1,D,'	{\n		parser.popConditionalResult();\n		return nullptr;\n	}\n\n	parser.popConditionalResult();','	{\n		return nullptr;\n	}\n\n	parser.popConditionalResult();'),
 'ifpop2':m(1,D,'".endif"});\n	parser.popConditionalResult();','".endif"});\n	if (ifBlock != nullptr)\n		parser.popConditionalResult();'),
 'elseearly':m(1,D,'		elseBlock = parseDirectiveConditional(parser,DIRECTIVE_COND_IFDEF);','		elseBlock = parseDirectiveConditional(parser,DIRECTIVE_COND_IFDEF);\n		if (elseBlock == nullptr)\n			return nullptr;'),
 'elseterm':m(1,D,'		elseBlock = parser.parseConditionalBlock(\'.\', {".endif"});\n','		elseBlock = parser.parseConditionalBlock(\'.\', {".endif"});\n		if (parser.atEnd())\n			return elseBlock;\n'),
 'condearly':m(1,D,'	parser.pushConditionalResult(condResult);\n','',D,'	if(parser.nextToken().type != TokenType::Separator)\n	{\n		parser.printError(start, "Directive not terminated");\n		return nullptr;\n	}\n\n	std::unique_ptr<CAssemblerCommand> ifBlock','	parser.pushConditionalResult(condResult);\n	if(parser.nextToken().type != TokenType::Separator)\n	{\n		parser.printError(start, "Directive not terminated");\n		return nullptr;\n	}\n\n	std::unique_ptr<CAssemblerCommand> ifBlock'),
 'nopop':m(1,D,'	parser.popConditionalResult();\n\n	// for true or false','	// for true or false'),
 'doublepop':m(1,D,'	// for true or false blocks, there','	if (condResult == ConditionalResult::False)\n		parser.popConditionalResult();\n\n	// for true or false blocks, there'),
 'parsepop':m(1,P,'	entries.pop_back();\n\n	return sequence;','	if (!hasError())\n		entries.pop_back();\n\n	return sequence;'),
 'parsepush':m(1,P,'	if (recursionLimitReached)\n		return nullptr;\n\n	if (entries.size() >= 150)\n	{','	FileEntry limit{tokenizer, virtualFile, -1, 0};\n	entries.push_back(limit);\n	if (recursionLimitReached)\n		return nullptr;\n	entries.pop_back();\n\n	if (entries.size() >= 150)\n	{'),
 'supp':m(1,P,TRIAL,TRIAL.replace('		state.restore();\n','		state.restore();\n		if (command == nullptr)\n		{\n			initializingMacro = false;\n			return nullptr;\n		}\n')),
 'initm':m(1,P,TRIAL,TRIAL+'		if (command == nullptr)\n			return nullptr;\n'),
 'initm2':m(1,P,'		initializingMacro = false;\n	}\n\n	// register','		initializingMacro = command == nullptr;\n	}\n\n	// register') if 0 else m(1,P,'		initializingMacro = false;\n	}\n\n	// register','		if (!macro.labels.empty())\n			initializingMacro = false;\n	}\n\n	// register'),
 'initnest':m(1,P,'	if (initializingMacro)\n		return std::make_unique<DummyCommand>();\n\n','	if (initializingMacro && macro.counter != 0)\n		return std::make_unique<DummyCommand>();\n\n'),
 'over':m(1,P,'parseString(fullText);\n','parseString(fullText);\n	if (result == nullptr)\n		return nullptr;\n'),
 'exprsupp':m(1,X,'		if (inUnknownOrFalseBlock)\n		{\n			Logger::unsuppressErrors();\n			if (!value.isValid())\n				return false;\n		}','		if (inUnknownOrFalseBlock)\n		{\n			if (!value.isValid())\n				return false;\n			Logger::unsuppressErrors();\n		}'),
 'exprsupp2':m(1,X,'			Logger::suppressErrors();\n\n		ExpressionValue value','			Logger::suppressErrors();\n		Logger::suppressErrors();\n\n		ExpressionValue value'),
 'leak':m(1,P,'		// errors of earlier statements have already been handled\n		clearError();\n',''),
 'leak2':m(1,P,'		clearError();\n\n		const Token &next','		if (isInsideTrueBlock())\n			clearError();\n\n		const Token &next'),
 'leak3':m(1,P,'	clearError();\n	return std::make_unique<InvalidCommand>','	return std::make_unique<InvalidCommand>',P,'		// errors of earlier statements have already been handled\n		clearError();\n',''),
 'macname':m(1,P,'		printError(first, "Invalid macro name");\n',''),
 'macname2':m(1,P,'			printError(first, "Invalid macro parameter name");\n',''),
 'macterm':m(1,P,'		printError(first, "Endmacro directive not terminated");\n',''),
 'expf':m(1,P,'		printError(first, ".expfunc directive not terminated");\n',''),
 'pos1':m(1,M,'			tokenizer->setPosition(tokenPos);\n',''),
 'pos2':m(1,M,'	tokenizer->setPosition(startPos);\n',''),
 'pos3':m(1,M,'			parser.getTokenizer()->setPosition(tokenPos);\n			paramFail',"			paramFail"),
 'pos4':m(1,S,'		parser.getTokenizer()->setPosition(tokenOpcodePos);\n',''),
 'pos5':m(1,A,'			TokenizerPosition tokenPos = parser.getTokenizer()->getPosition();\n			\n			if (parseThumbParameters(parser,ThumbOpcodes[z],vars))','			if (parseThumbParameters(parser,ThumbOpcodes[z],vars))',A,'				return std::make_unique<CThumbInstruction>(ThumbOpcodes[z],vars);\n			}\n\n			parser.getTokenizer()->setPosition(tokenPos);\n','				return std::make_unique<CThumbInstruction>(ThumbOpcodes[z],vars);\n			}\n\n'),
 'pos6':m(1,A,'			parser.getTokenizer()->setPosition(tokenPos);\n			paramFail = true;\n		}\n	}\n\n	if (paramFail)\n		parser.printError(token, "ARM','			if (!paramFail)\n				parser.getTokenizer()->setPosition(tokenPos);\n			paramFail = true;\n		}\n	}\n\n	if (paramFail)\n		parser.printError(token, "ARM'),
 'tseq':m(1,P,'				if (values == entry.values.end() || values->intValue != token.intValue())\n				{\n					valid = false;\n					break;','				if (values == entry.values.end() || values->intValue != token.intValue())\n				{\n					return false;'),
 'tseq2':m(1,P,'		parser.getTokenizer()->setPosition(pos);\n	}\n\n	return false;','		if (valid)\n			parser.getTokenizer()->setPosition(pos);\n	}\n\n	return false;'),
 'label':m(1,P,'	if (peekToken(0).type == TokenType::Identifier &&\n		peekToken(1).type == TokenType::Colon)\n	{\n		const Identifier &name = start.identifierValue();\n		eatTokens(2);','	if (peekToken(0).type == TokenType::Identifier && macros.find(peekToken(0).identifierValue()) == macros.end() && peekToken(1).type == TokenType::LBrack)\n	{\n		eatTokens(2);\n		return nullptr;\n	}\n	if (peekToken(0).type == TokenType::Identifier &&\n		peekToken(1).type == TokenType::Colon)\n	{\n		const Identifier &name = start.identifierValue();\n		eatTokens(2);'),
 'macarg':m(1,P,'				printError(start, "Macro arguments not comma-separated");\n',''),
 'direrr':m(1,P,'			if (!hasError())\n				printError(tok, "Directive parameter failure");\n','			if (!hasError() && isInsideTrueBlock())\n				printError(tok, "Directive parameter failure");\n'),
 'depthrai':m(1,H,'~UserFunctionDepth() { depth--; }','~UserFunctionDepth() { if (!limitReached()) depth--; }') if 0 else m(0,P,'#include "Util/Util.h"','#include "Util/Util.h"\n'),
 # behaviour kept
 'k_raii':m(0,P,'class ParseTimeState\n{','class ErrorSilencer\n{\npublic:\n	ErrorSilencer() { Logger::suppressErrors(); }\n	~ErrorSilencer() { Logger::unsuppressErrors(); }\n};\n\nclass ParseTimeState\n{',P,'		Logger::suppressErrors();\n		ParseTimeState state;','		ErrorSilencer silencer;\n		ParseTimeState state;',P,'		Logger::unsuppressErrors();\n',''),
 'k_old':m(0,P,'		initializingMacro = true;\n','		const bool wasInitializing = initializingMacro;\n		initializingMacro = true;\n',P,'		initializingMacro = false;\n	}\n\n	// register','		initializingMacro = wasInitializing;\n	}\n\n	// register'),
 'k_help':m(0,P,'		bool foundSomething = false;\n		while (checkEquLabel() || checkMacroDefinition() || checkExpFuncDefinition())\n		{\n			// do nothing, just parse all the equs and macros there are\n			if (hasError())\n				sequence->addCommand(handleError());\n\n			foundSomething = true;\n		}\n\n		if (foundSomething)\n			continue;\n','		if (parseDefinitions(*sequence))\n			continue;\n',
   P,'std::unique_ptr<CAssemblerCommand> Parser::parseCommandSequence(char indicator, const','bool Parser::parseDefinitions(CommandSequence &sequence)\n{\n	bool found = false;\n	while (checkEquLabel() || checkMacroDefinition() || checkExpFuncDefinition())\n	{\n		if (hasError())\n			sequence.addCommand(handleError());\n		found = true;\n	}\n	return found;\n}\n\nstd::unique_ptr<CAssemblerCommand> Parser::parseCommandSequence(char indicator, const',
   PH,'	std::unique_ptr<CAssemblerCommand> handleError();\n','	std::unique_ptr<CAssemblerCommand> handleError();\n	bool parseDefinitions(class CommandSequence &sequence);\n'),
 'k_flush':m(0,P,'		// errors of earlier statements have already been handled\n		clearError();\n','		// errors of earlier statements have already been handled\n		if (hasError())\n			clearError();\n'),
 'k_popelse':m(0,D,'	{\n		parser.popConditionalResult();\n		return nullptr;\n	}\n\n	parser.popConditionalResult();\n','	{\n		invalidEnd = true;\n	}\n\n	parser.popConditionalResult();\n	if (invalidEnd)\n		return nullptr;\n',D,'	parser.pushConditionalResult(elseResult);\n','	bool invalidEnd = false;\n	parser.pushConditionalResult(elseResult);\n'),
 'k_scope':m(0,D,'	parser.pushConditionalResult(condResult);\n	std::unique_ptr<CAssemblerCommand> ifBlock = parser.parseConditionalBlock(\'.\', {".else", ".elseif", ".elseifdef", ".elseifndef", ".endif"});\n	parser.popConditionalResult();\n','	std::unique_ptr<CAssemblerCommand> ifBlock = parseCondBlock(parser,condResult);\n',D,'std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(','static std::unique_ptr<CAssemblerCommand> parseCondBlock(Parser &parser, ConditionalResult res)\n{\n	parser.pushConditionalResult(res);\n	auto block = parser.parseConditionalBlock(\'.\', {".else", ".elseif", ".elseifdef", ".elseifndef", ".endif"});\n	parser.popConditionalResult();\n	return block;\n}\n\nstd::unique_ptr<CAssemblerCommand> parseDirectiveConditional('),
 'k_cmd':m(0,P,'	if ((command = parseLabel()) != nullptr)\n		return command;\n	if (hasError())\n		return handleError();\n\n	if ((command = parseMacroCall()) != nullptr)\n		return command;','	auto label = parseLabel();\n	if (label)\n		return label;\n	if (hasError())\n		return handleError();\n\n	command = parseMacroCall();\n	if (command)\n		return command;'),
 'k_macro':m(0,M,'			if (parseMacroParameters(parser,mipsMacros[z]))\n			{\n				return mipsMacros[z].function(parser,registers,immediate,mipsMacros[z].flags);\n			}\n\n			tokenizer->setPosition(tokenPos);\n','			if (!parseMacroParameters(parser,mipsMacros[z]))\n			{\n				tokenizer->setPosition(tokenPos);\n				continue;\n			}\n\n			return mipsMacros[z].function(parser,registers,immediate,mipsMacros[z].flags);\n'),
 'k_suppl':m(0,X,'		if (inUnknownOrFalseBlock)\n			Logger::suppressErrors();\n\n		ExpressionValue value = evaluate();\n\n		if (inUnknownOrFalseBlock)\n		{\n			Logger::unsuppressErrors();\n','		const bool silent = inUnknownOrFalseBlock;\n		if (silent)\n			Logger::suppressErrors();\n\n		ExpressionValue value = evaluate();\n\n		if (silent)\n			Logger::unsuppressErrors();\n\n		if (inUnknownOrFalseBlock)\n		{\n'),
 'k_errm':m(0,P,'	clearError();\n	return std::make_unique<InvalidCommand>','	error = false;\n	return std::make_unique<InvalidCommand>'),
 'k_label':m(0,P,'	if (peekToken(0).type == TokenType::Identifier &&\n		peekToken(1).type == TokenType::Colon)\n	{','	if (peekToken(0).type != TokenType::Identifier || peekToken(1).type != TokenType::Colon)\n		return nullptr;\n\n	{'),
}
