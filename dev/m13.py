P='Parser/Parser.cpp'; T='Parser/Tokenizer.cpp'; X='Parser/ExpressionParser.cpp'; D='Parser/DirectivesParser.cpp'; M='Archs/MIPS/MipsParser.cpp'; S='Archs/SuperH/ShParser.cpp'; A='Archs/ARM/ArmParser.cpp'
H='Core/ExpressionFunctionHandler.cpp'; C='Core/Assembler.cpp'; N='Util/EncodingTable.cpp'; U='Util/FileClasses.cpp'
def m(x,*e): return ('C13',x,[(e[i],e[i+1],e[i+2]) for i in range(0,len(e),3)])
MUT={
 'handleerr':m(1,P,'while (!atEnd() && nextToken().type != TokenType::Separator);','while (nextToken().type != TokenType::Separator);'),
 'macroparam':m(1,P,'	while (!atEnd() && peekToken().type != TokenType::Separator)\n	{\n		// if the next','	while (peekToken().type != TokenType::Separator)\n	{\n		// if the next'),
 'expfunc':m(1,P,'	while (!atEnd() && peekToken().type != TokenType::Separator)\n		eatToken();','	while (peekToken().type != TokenType::Separator)\n		eatToken();'),
 'addequ':m(1,P,'while (!tok.atEnd() && tok.peekToken().type != TokenType::Separator)','while (tok.peekToken().type != TokenType::Separator)'),
 'nestmac':m(1,P,'		while (!atEnd())\n		{\n			const Token& token = nextToken();','		while (true)\n		{\n			const Token& token = nextToken();'),
 'mac':m(1,P,'	while (!atEnd())\n	{\n		const Token& tok = nextToken();','	while (true)\n	{\n		const Token& tok = nextToken();'),
 'macvalid':m(1,P,'	while (!atEnd())\n	{\n		const Token& tok = nextToken();','	while (!valid)\n	{\n		const Token& tok = nextToken();'),
 'seqend':m(1,P,'	bool foundTermination = false;\n	while (!atEnd())','	bool foundTermination = false;\n	while (!atEnd() || (terminators.size() && !hasError()))'),
 'seqsep':m(1,P,'		{\n			eatToken();\n			continue;\n		}\n\n		if (next.type == TokenType::Identifier)','		{\n			continue;\n		}\n\n		if (next.type == TokenType::Identifier)'),
 'seqsep2':m(1,P,'		{\n			eatToken();\n			continue;\n		}\n\n		if (next.type == TokenType::Identifier)','		{\n			if (isInsideTrueBlock())\n				eatToken();\n			continue;\n		}\n\n		if (next.type == TokenType::Identifier)'),
 'equeat':m(1,P,'			eatTokens(pos+2);\n',''),
 'equeat2':m(1,P,'			eatTokens(pos+2);\n\n			// skip the equ if it\'s inside a false conditional block\n			if (!isInsideTrueBlock())\n				return true;','			// skip the equ if it\'s inside a false conditional block\n			if (!isInsideTrueBlock())\n				return true;\n\n			eatTokens(pos+2);\n'),
 'nohandle':m(1,P,'	printError(token,"Parse error \'%s\'", token.getOriginalText());\n	return handleError();','	printError(token,"Parse error \'%s\'", token.getOriginalText());\n	clearError();\n	return std::make_unique<InvalidCommand>();'),
 'nohandle2':m(1,P,'		clearError','		clearErro') if 0 else m(1,P,'	// skip the rest of the statement\n	while (!atEnd() && nextToken().type != TokenType::Separator);\n','	// skip the rest of the statement\n	while (!atEnd() && peekToken().type != TokenType::Separator)\n		eatToken();\n') if 0 else m(1,P,'	// skip the rest of the statement\n	while (!atEnd() && nextToken().type != TokenType::Separator);\n',''),
 'diroff':m(1,P,'		eatToken();\n		std::unique_ptr<CAssemblerCommand> result = directive.function','		std::unique_ptr<CAssemblerCommand> result = directive.function'),
 'exprlist':m(1,P,'	while (peekToken().type == TokenType::Comma)\n	{\n		eatToken();\n\n		exp = ','	while (peekToken().type == TokenType::Comma)\n	{\n		if (valid)\n			eatToken();\n\n		exp = '),
 'toomany':m(1,P,'			// skip comma\n			eatToken();\n','			// skip comma\n'),
 'opmul':m(0,X,'		tokenizer.eatToken();\n\n		std::unique_ptr<ExpressionInternal> exp2 = multiplicativeExpression(tokenizer);\n		if (exp2 == nullptr)\n			return nullptr;\n','		std::unique_ptr<ExpressionInternal> exp2 = multiplicativeExpression(tokenizer);\n		if (exp2 == nullptr)\n			return nullptr;\n'),
 'oplast':m(0,X,'		if (op == OperatorType::Invalid)\n			break;\n\n		tokenizer.eatToken();\n\n		std::unique_ptr<ExpressionInternal> exp2 = multiplicativeExpression(tokenizer);\n		if (exp2 == nullptr)\n			return nullptr;\n','		if (op == OperatorType::Invalid)\n			break;\n\n		std::unique_ptr<ExpressionInternal> exp2 = multiplicativeExpression(tokenizer);\n		if (exp2 == nullptr)\n			continue;\n\n		tokenizer.eatToken();\n'),
 'paren':m(1,X,'			tokenizer.eatToken();\n			std::unique_ptr<ExpressionInternal> exp = expression(tokenizer);\n\n			if','			std::unique_ptr<ExpressionInternal> exp = expression(tokenizer);\n\n			if'),
 'funcargs':m(1,X,'			std::unique_ptr<ExpressionInternal> exp = expression(tokenizer);\n			if (exp == nullptr)\n				return nullptr;\n\n			parameters.push_back','			std::unique_ptr<ExpressionInternal> exp = expression(tokenizer);\n			if (exp == nullptr)\n				continue;\n\n			parameters.push_back'),
 'cond':m(1,X,'	tokenizer.eatToken();\n	std::unique_ptr<ExpressionInternal> second','	std::unique_ptr<ExpressionInternal> second') if 0 else m(1,X,'static std::unique_ptr<ExpressionInternal> expression(Tokenizer& tokenizer)\n{\n','static std::unique_ptr<ExpressionInternal> expression(Tokenizer& tokenizer)\n{\n	if (tokenizer.peekToken().type == TokenType::Question)\n		return expression(tokenizer);\n'),
 'blockcom':m(1,T,'					if (isInputAtEnd())\n','					if (input->atEnd() && linePos < currentLine.size())\n'),
 'blockcom2':m(0,T,'						createToken(TokenType::Invalid,0, "Unexpected end of file in block comment");\n						addToken(token);\n						return;','						createToken(TokenType::Invalid,0, "Unexpected end of file in block comment");\n						addToken(token);\n						break;'),
 'blockcom3':m(1,T,'				linePos++;\n				if (linePos >= currentLine.size())','				if (!isWhitespace(currentLine,linePos))\n					linePos++;\n				if (linePos >= currentLine.size())'),
 'comment':m(1,T,'			linePos = currentLine.size();\n		} else if (isBlock','		} else if (isBlock'),
 'checked':m(1,T,'		if (!replaced)\n			(*it).checked = true;\n',''),
 'lookmark':m(0,T,'		it->checked = false;\n		it++;','		it->checked = false;'),
 'strpos':m(1,T,"					text += '\\\\';\n					pos += 2;","					text += '\\\\';"),
 'numend':m(1,T,'			end++;\n		}\n\n		bool isFloat','			if (isValid)\n				end++;\n		}\n\n		bool isFloat'),
 'equval':m(1,T,'		while (pos < currentLine.size() && !isComment(currentLine,pos))\n			pos++;','		while (pos < currentLine.size() && !isComment(currentLine,pos))\n			if (!isContinuation(currentLine,pos))\n				pos++;'),
 'ctok':m(1,T,'	token.setValue(value, currentLine.substr(linePos, length));\n\n	linePos += length;\n}\n\nvoid FileTokenizer::createToken(TokenType type, size_t length, double','	token.setValue(value, currentLine.substr(linePos, length));\n}\n\nvoid FileTokenizer::createToken(TokenType type, size_t length, double'),
 'oplen':m(1,T,"	case '$':\n		createToken(TokenType::Dollar,1);","	case '$':\n		createToken(TokenType::Dollar,0);"),
 'invlen':m(1,T,'createToken(TokenType::Invalid,pos-characterStart,text);','createToken(TokenType::Invalid,0,text);'),
 'initend':m(0,T,'				if (input->atEnd())\n					break;\n\n				currentLine','				currentLine'),
 'passes':m(1,C,'		validation.passes++;\n',''),
 'passlim':m(1,C,'			Logger::queueError(Logger::Error, "Stuck in infinite validation loop");\n			break;','			Logger::queueError(Logger::Error, "Stuck in infinite validation loop");'),
 'passeq':m(1,C,'		if (validation.passes >= 100)\n','		if (validation.passes >= 100 && !Global.memoryMode)\n'),
 'passreset':m(1,C,'		Revalidate = content->Validate(validation);\n','		Revalidate = content->Validate(validation);\n		if (Global.Section == 0)\n			validation.passes = 0;\n'),
 'depth':m(1,P,'	if (entries.size() >= 150)\n','	if (entries.size() >= 150 && !virtualFile)\n'),
 'depth2':m(1,P,'		Logger::queueError(Logger::Error, "Max include/recursion depth reached");\n		return nullptr;','		Logger::queueError(Logger::Error, "Max include/recursion depth reached");'),
 'depthbig':m(1,P,'entries.size() >= 150','entries.size() >= 1500000'),
 'reached':m(1,P,'	if (recursionLimitReached)\n		return nullptr;\n\n',''),
 'reached2':m(1,P,'		recursionLimitReached = true;\n',''),
 'reached3':m(1,P,'	if (entries.empty())\n		recursionLimitReached = false;','	recursionLimitReached = false;'),
 'ufdepth':m(1,H,'UserFunctionDepth::depth >= UserFunctionDepth::maxDepth','UserFunctionDepth::depth == UserFunctionDepth::maxDepth && params.size() > 0'),
 'ufno':m(1,H,'		UserFunctionDepth depth;\n\n		// instantiate','		// instantiate'),
 'ufscope':m(1,H,'		UserFunctionDepth depth;\n\n		// instantiate','		{ UserFunctionDepth depth; }\n\n		// instantiate'),
 'ufreached':m(1,H,'		if (UserFunctionDepth::limitReached)\n			return {};\n\n',''),
 'equdepth':m(1,T,'				if (replacementLimitReached || depth > maxReplacementDepth)','				if (replacementLimitReached)'),
 'equdepth2':m(1,T,'size_t depth = it->replacementDepth + 1;','size_t depth = 1;'),
 'equdepth3':m(1,T,'					insertIt->replacementDepth = depth;\n',''),
 'equdepth4':m(1,T,'replacementLimitReached || depth > maxReplacementDepth','depth > maxReplacementDepth'),
 'trie1':m(0,N,'		node = it->second;\n		text++;\n	}\n','		node = it->second;\n	}\n'),
 'trie2':m(1,N,'		node = newNode.index;\n		text++;','		node = newNode.index;'),
 'trie3':m(0,N,'LookupEntry lookupEntry { node, *text++ };','LookupEntry lookupEntry { node, *text };'),
 'encstr':m(1,N,'		pos += entry.valueLen;\n','		if (entry.hexLen != 0)\n			pos += entry.valueLen;\n'),
 'alignn':m(1,'Commands/CDirectiveFile.cpp','		n -= 128;\n',''),
 'areaw':m(1,'Commands/CDirectiveArea.cpp','			writeSize -= part;\n',''),
 'alignsz':m(1,'Util/ByteArray.cpp','	while (size_ % alignment)\n	{\n		appendByte(0);','	while (size_ % alignment)\n	{\n		replaceByte(size_,0);'),
 'strint':m(1,'Util/Util.cpp','tolower(line[start++])','tolower(line[start])'),
 'swith':m(1,'Util/Util.cpp','str[stringPos++] != *value++','str[stringPos] != *value'),
 'readall':m(0,U,'	while (!atEnd())\n	{\n		result.push_back(readLine());','	while (isOpen())\n	{\n		result.push_back(readLine());'),
 'rline':m(1,U,"while (tell() < size() && (value = readCharacter()) != L'\\n')","while ((value = readCharacter()) != L'\\n')"),
 'mipsenc':m(1,M,'		while (*encoding >= \'0\' && *encoding <= \'9\')\n		{\n			num = num*10 + *encoding-\'0\';\n			encoding++;','		while (*encoding >= \'0\' && *encoding <= \'9\')\n		{\n			num = num*10 + *encoding-\'0\';'),
 'mipsop':m(1,M,'	for (int z = 0; MipsOpcodes[z].name != nullptr; z++)','	for (int z = 0; MipsOpcodes[z].name != nullptr; )'),
 'reglist':m(0,A,'		if (parser.peekToken().type != TokenType::Comma)\n			break;\n\n		parser.eatToken();','		if (parser.peekToken().type != TokenType::Comma)\n			break;'),
 'reglist2':m(0,A,'		if (parser.peekToken().type != TokenType::Comma)\n			break;\n\n		parser.eatToken();\n','		const bool more = parser.peekToken().type == TokenType::Comma;\n		if (!more)\n			break;\n\n		parser.matchToken(TokenType::Comma);\n'),
 'shfreg':m(1,S,'			while (*fReg)\n			{','			while (*fReg && encoding)\n			{') if 0 else m(1,S,'	while (*encoding >= \'0\' && *encoding <= \'9\')\n	{\n		num = num*10 + *encoding-\'0\';\n		encoding++;','	while (*encoding >= \'0\' && *encoding <= \'9\')\n	{\n		num = num*10 + *encoding-\'0\';'),
 'pad':m(1,'Core/Misc.cpp',"			str += ' ';",'			memoryAddress += 0;'),
 'retmacro':m(1,P,'	// skip macro instantiation in known false blocks\n	if (!isInsideTrueBlock())\n		return std::make_unique<DummyCommand>();\n','') if 0 else m(1,P,'	ParserMacro& macro = it->second;\n	eatToken();\n','	ParserMacro& macro = it->second;\n	if (initializingMacro)\n		return std::make_unique<DummyCommand>();\n	eatToken();\n'),
 'lab':m(1,P,"		eatTokens(2);\n		\n		if (initializingMacro)",'		if (isInsideTrueBlock())\n			eatTokens(2);\n		\n		if (initializingMacro)'),
 # behaviour kept
 'k_handle':m(0,P,'	while (!atEnd() && nextToken().type != TokenType::Separator);','	for (;;)\n	{\n		if (atEnd())\n			break;\n		const Token& skipped = nextToken();\n		if (skipped.type == TokenType::Separator)\n			break;\n	}\n'),
 'k_handle2':m(0,P,'	while (!atEnd() && nextToken().type != TokenType::Separator);','	bool found = false;\n	while (!found && !atEnd())\n		found = nextToken().type == TokenType::Separator;\n'),
 'k_seq':m(0,P,'		bool foundSomething = false;\n		while (checkEquLabel() || checkMacroDefinition() || checkExpFuncDefinition())\n		{','		bool foundSomething = false;\n		for (;;)\n		{\n			if (!checkEquLabel() && !checkMacroDefinition() && !checkExpFuncDefinition())\n				break;\n'),
 'k_mac':m(0,P,'	bool valid = false;\n	while (!atEnd())\n	{\n		const Token& tok = nextToken();\n		if (tok.type == TokenType::Identifier && tok.identifierValue() == ".endmacro")\n		{\n			valid = true;\n			break;\n		}\n	}','	bool valid = false;\n	while (!valid && !atEnd())\n	{\n		const Token& tok = nextToken();\n		valid = tok.type == TokenType::Identifier && tok.identifierValue() == ".endmacro";\n	}'),
 'k_depth':m(0,P,'	if (entries.size() >= 150)\n	{','	const bool tooDeep = entries.size() >= 150;\n	if (tooDeep)\n	{'),
 'k_depth2':m(0,P,'	if (entries.size() >= 150)\n	{','	static const size_t maxDepth = 150;\n	if (!(entries.size() < maxDepth))\n	{'),
 'k_depth3':m(0,P,'std::unique_ptr<CAssemblerCommand> Parser::parse(Tokenizer* tokenizer','static bool depthExceeded(size_t depth)\n{\n	return depth >= 150;\n}\n\nstd::unique_ptr<CAssemblerCommand> Parser::parse(Tokenizer* tokenizer',P,'	if (entries.size() >= 150)','	if (depthExceeded(entries.size()))'),
 'k_pass':m(0,C,'		if (validation.passes >= 100)\n','		const bool stuck = validation.passes >= 100;\n		if (stuck)\n'),
 'k_pass2':m(0,C,'	do	// loop until everything is constant\n	{','	for (;;)	// loop until everything is constant\n	{',C,'		validation.passes++;\n	} while (Revalidate);','		validation.passes++;\n		if (!Revalidate)\n			break;\n	}'),
 'k_pass3':m(0,C,'		validation.passes++;\n	} while (Revalidate);','		++validation.passes;\n	} while (Revalidate == true);'),
 'k_uf':m(0,H,'		if (UserFunctionDepth::limitReached)\n			return {};\n\n		if (UserFunctionDepth::depth','		const bool reached = UserFunctionDepth::limitReached;\n		if (reached)\n			return {};\n\n		if (UserFunctionDepth::depth'),
 'k_expr':m(0,X,'		tokenizer.eatToken();\n\n		std::unique_ptr<ExpressionInternal> exp2 = multiplicativeExpression(tokenizer);','		(void) tokenizer.nextToken();\n\n		std::unique_ptr<ExpressionInternal> exp2 = multiplicativeExpression(tokenizer);'),
 'k_trie':m(0,N,'	while (*text != 0)\n	{\n		Node newNode','	for (; *text != 0; ++text)\n	{\n		Node newNode',N,'		node = newNode.index;\n		text++;','		node = newNode.index;'),
 'k_area':m(0,'Commands/CDirectiveArea.cpp','		while (writeSize > 0)\n		{\n			size_t part = std::min<size_t>(64,writeSize);\n			g_fileManager->write(buffer,part);\n			writeSize -= part;\n		}','		for (size_t done = 0; done < writeSize; )\n		{\n			size_t part = std::min<size_t>(64,writeSize-done);\n			g_fileManager->write(buffer,part);\n			done += part;\n		}'),
 'k_align':m(0,'Commands/CDirectiveFile.cpp','	while (n > 128)\n	{\n		g_fileManager->write(buffer,128);\n		n -= 128;\n	}','	for (; n > 128; n -= 128)\n		g_fileManager->write(buffer,128);\n'),
 'k_str':m(0,T,"			text += currentLine[pos++];",'			text += currentLine[pos];\n			++pos;'),
 'k_block':m(0,T,'			while(!isBlockCommentEnd(currentLine,linePos))\n			{\n				linePos++;','			for (; !isBlockCommentEnd(currentLine,linePos); )\n			{\n				++linePos;'),
 'k_param':m(0,P,'	while (!atEnd() && peekToken().type != TokenType::Separator)\n	{\n		// if the next','	while (true)\n	{\n		if (atEnd() || peekToken().type == TokenType::Separator)\n			break;\n\n		// if the next'),
 'k_skip':m(0,P,'	while (!atEnd() && peekToken().type != TokenType::Separator)\n		eatToken();','	skipStatement();',P,'bool Parser::parseFunctionDeclaration','void Parser::skipStatement()\n{\n	while (!atEnd() && peekToken().type != TokenType::Separator)\n		eatToken();\n}\n\nbool Parser::parseFunctionDeclaration','Parser/Parser.h','	bool parseFunctionDeclaration','	void skipStatement();\n	bool parseFunctionDeclaration'),
 'k_rline':m(0,U,"	while (tell() < size() && (value = readCharacter()) != L'\\n')","	while (contentPos < size_ && (value = readCharacter()) != L'\\n')") if 0 else m(0,U,"		while (tell() < size() && (value = readCharacter()) != L'\\n')\n		{","		while (!(contentPos >= size_))\n		{\n			value = readCharacter();\n			if (value == L'\\n')\n				break;"),
 'k_tok':m(0,T,'	token.type = type;\n	token.line = lineNumber;\n	token.column = linePos+1;\n	token.setValue(std::monostate{}, currentLine.substr(linePos, length));','	startToken(type);\n	token.setValue(std::monostate{}, currentLine.substr(linePos, length));',T,'void FileTokenizer::createToken(TokenType type, size_t length)\n','void FileTokenizer::startToken(TokenType type)\n{\n	token.type = type;\n	token.line = lineNumber;\n	token.column = linePos+1;\n}\n\nvoid FileTokenizer::createToken(TokenType type, size_t length)\n','Parser/Tokenizer.h','	bool isInputAtEnd();','	void startToken(TokenType type);\n	bool isInputAtEnd();'),
 'k_adv':m(0,T,'	token.setValue(value, currentLine.substr(linePos, length));\n\n	linePos += length;\n}\n\nvoid FileTokenizer::createToken(TokenType type, size_t length, double','	token.setValue(value, currentLine.substr(linePos, length));\n	advance(length);\n}\n\nvoid FileTokenizer::createToken(TokenType type, size_t length, double','Parser/Tokenizer.h','	bool isInputAtEnd();','	void advance(size_t length) { linePos += length; }\n	bool isInputAtEnd();'),
 'k_end':m(0,T,'	if (isInputAtEnd())\n	{\n		createToken(TokenType::Invalid,0);','	if (linePos >= currentLine.size() && input->atEnd())\n	{\n		createToken(TokenType::Invalid,0);'),
 'k_equ':m(0,T,'				if (replacementLimitReached || depth > maxReplacementDepth)\n				{','				const bool tooDeep = depth > maxReplacementDepth;\n				if (tooDeep || replacementLimitReached)\n				{'),
 'k_uf2':m(0,H,'		UserFunctionDepth depth;\n','		const UserFunctionDepth guard;\n'),
 'k_reach':m(0,P,'	if (entries.empty())\n		recursionLimitReached = false;\n\n	if (recursionLimitReached)','	const bool outermost = entries.size() == 0;\n	if (outermost)\n		recursionLimitReached = false;\n	else if (recursionLimitReached)'),
}
