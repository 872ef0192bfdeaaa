X='Core/Expression.cpp'; G='Parser/ExpressionParser.cpp'; T='Parser/Tokenizer.cpp'; H='Core/Expression.h'
def m(x,*e): return ('C11',x,[(e[i],e[i+1],e[i+2]) for i in range(0,len(e),3)])
LADDER=open('/repo/'+G,newline='').read().replace('\r\n','\n')
a=LADDER.index('static std::unique_ptr<ExpressionInternal> multiplicativeExpression'); b=LADDER.index('static std::unique_ptr<ExpressionInternal> conditionalExpression')
CLIMB='''struct BinaryOperator
{
	TokenType token;
	OperatorType type;
	int precedence;
};

static const BinaryOperator binaryOperators[] =
{
	{ TokenType::LogOr, OperatorType::LogOr, 1 },
	{ TokenType::LogAnd, OperatorType::LogAnd, 2 },
	{ TokenType::BitOr, OperatorType::BitOr, 3 },
	{ TokenType::Caret, OperatorType::Xor, 4 },
	{ TokenType::BitAnd, OperatorType::BitAnd, 5 },
	{ TokenType::Equal, OperatorType::Equal, 6 },
	{ TokenType::NotEqual, OperatorType::NotEqual, 6 },
	{ TokenType::Less, OperatorType::Less, 7 },
	{ TokenType::LessEqual, OperatorType::LessEqual, 7 },
	{ TokenType::Greater, OperatorType::Greater, 7 },
	{ TokenType::GreaterEqual, OperatorType::GreaterEqual, 7 },
	{ TokenType::LeftShift, OperatorType::LeftShift, 8 },
	{ TokenType::RightShift, OperatorType::RightShift, 8 },
	{ TokenType::Plus, OperatorType::Add, 9 },
	{ TokenType::Minus, OperatorType::Sub, 9 },
	{ TokenType::Mult, OperatorType::Mult, 10 },
	{ TokenType::Div, OperatorType::Div, 10 },
	{ TokenType::Mod, OperatorType::Mod, 10 },
};

static std::unique_ptr<ExpressionInternal> binaryExpression(Tokenizer& tokenizer, int minimum)
{
	std::unique_ptr<ExpressionInternal> left = unaryExpression(tokenizer);
	if (left == nullptr)
		return nullptr;

	while (true)
	{
		const BinaryOperator *found = nullptr;
		const TokenType next = tokenizer.peekToken().type;
		for (const BinaryOperator &op : binaryOperators)
		{
			if (op.token == next)
				found = &op;
		}

		if (found == nullptr || found->precedence < minimum)
			return left;

		tokenizer.eatToken();
		std::unique_ptr<ExpressionInternal> right = binaryExpression(tokenizer, found->precedence + 1);
		if (right == nullptr)
			return nullptr;

		left = std::make_unique<ExpressionInternal>(found->type, std::move(left), std::move(right));
	}
}

static std::unique_ptr<ExpressionInternal> logicalOrExpression(Tokenizer& tokenizer)
{
	return binaryExpression(tokenizer, 1);
}

'''
MUT={
 'shiftrel':m(1,G,'''	std::unique_ptr<ExpressionInternal> exp = andExpression(tokenizer);
	if (exp == nullptr)
		return nullptr;

	while (tokenizer.peekToken().type == TokenType::Caret)''','''	std::unique_ptr<ExpressionInternal> exp = andExpression(tokenizer);
	if (exp == nullptr)
		return nullptr;

	if (tokenizer.peekToken().type == TokenType::Caret)'''),
 'rightassoc':m(1,G,'''		std::unique_ptr<ExpressionInternal> exp2 = additiveExpression(tokenizer);''','''		std::unique_ptr<ExpressionInternal> exp2 = shiftExpression(tokenizer);'''),
 'andxor':m(1,G,'while (tokenizer.peekToken().type == TokenType::BitAnd)','while (tokenizer.peekToken().type == TokenType::Caret)',G,'exp = std::make_unique<ExpressionInternal>(OperatorType::BitAnd, std::move(exp), std::move(exp2));','exp = std::make_unique<ExpressionInternal>(OperatorType::Xor, std::move(exp), std::move(exp2));',
   G,'	while (tokenizer.peekToken().type == TokenType::Caret)\n	{\n		tokenizer.eatToken();\n\n		std::unique_ptr<ExpressionInternal> exp2 = andExpression(tokenizer);\n		if (exp2 == nullptr)\n			return nullptr;\n\n		exp = std::make_unique<ExpressionInternal>(OperatorType::Xor','	while (tokenizer.peekToken().type == TokenType::BitAnd)\n	{\n		tokenizer.eatToken();\n\n		std::unique_ptr<ExpressionInternal> exp2 = andExpression(tokenizer);\n		if (exp2 == nullptr)\n			return nullptr;\n\n		exp = std::make_unique<ExpressionInternal>(OperatorType::BitAnd'),
 'condright':m(1,G,'std::unique_ptr<ExpressionInternal> third = expression(tokenizer);','std::unique_ptr<ExpressionInternal> third = logicalOrExpression(tokenizer);'),
 'condswap':m(1,G,'std::move(exp), std::move(second), std::move(third)','std::move(exp), std::move(third), std::move(second)'),
 'eqrel':m(1,G,'''		case TokenType::Less:
			op = OperatorType::Less;
			break;
''','''		case TokenType::Less:
			op = OperatorType::Less;
			break;
		case TokenType::NotEqual:
			op = OperatorType::NotEqual;
			break;
'''),
 'subswap':m(1,G,'''		std::unique_ptr<ExpressionInternal> exp2 = multiplicativeExpression(tokenizer);
		if (exp2 == nullptr)
			return nullptr;

		exp = std::make_unique<ExpressionInternal>(op, std::move(exp), std::move(exp2));''','''		std::unique_ptr<ExpressionInternal> exp2 = multiplicativeExpression(tokenizer);
		if (exp2 == nullptr)
			return nullptr;

		exp = std::make_unique<ExpressionInternal>(op, std::move(exp2), std::move(exp));'''),
 'partial':m(1,G,'''		std::unique_ptr<ExpressionInternal> exp2 = shiftExpression(tokenizer);
		if (exp2 == nullptr)
			return nullptr;
''','''		std::unique_ptr<ExpressionInternal> exp2 = shiftExpression(tokenizer);
		if (exp2 == nullptr)
			return exp;
'''),
 'norestore':m(1,G,'''	if (exp == nullptr)
		tokenizer.setPosition(pos);''','''	if (exp == nullptr && !tokenizer.atEnd())
		tokenizer.setPosition(tokenizer.getPosition());'''),
 'paren':m(1,G,'if (tokenizer.nextToken().type != TokenType::RParen)\n				return nullptr;','if (tokenizer.peekToken().type == TokenType::RParen)\n				tokenizer.eatToken();'),
 'unaryprec':m(1,G,'''	const TokenType opType = tokenizer.nextToken().type;
	exp = postfixExpression(tokenizer);''','''	const TokenType opType = tokenizer.nextToken().type;
	exp = opType == TokenType::Exclamation ? expression(tokenizer) : postfixExpression(tokenizer);'''),
 'plusneg':m(1,G,'	case TokenType::Plus:\n		return exp;\n	case TokenType::Minus:','	case TokenType::Plus:\n	case TokenType::Minus:'),
 'lexshift':m(1,T,"else if (second == '=')\n			createToken(TokenType::LessEqual,2);","else if (second == '=')\n			createToken(TokenType::LessEqual,1);"),
 'lexsame':m(1,T,'createToken(TokenType::RightShift,2);','createToken(TokenType::LeftShift,2);'),
 'lexnot':m(1,T,"case '!':\n		if (second == '=')","case '!':\n		if (second == '=' || second == 'a')"),
 'shrarith':m(1,X,'result.intValue = ((uint64_t) intValue) >> other.intValue;','result.intValue = intValue >> other.intValue;'),
 'shl32':m(1,X,'result.intValue = ((uint64_t) intValue) << other.intValue;','result.intValue = (uint64_t) (intValue << (other.intValue & 31));'),
 'mult32':m(1,X,'result.intValue = intValue * other.intValue;','result.intValue = (uint32_t)intValue * other.intValue;'),
 'modsign':m(1,X,'result.intValue = intValue % other.intValue;','result.intValue = (intValue % other.intValue + other.intValue) % other.intValue;'),
 'nozero':m(1,X,'''		if (other.intValue == 0)
		{
			result.intValue = intValue;''','''		if (other.intValue == 0 && intValue == 0)
		{
			result.intValue = intValue;'''),
 'nomin':m(1,X,'''		if (intValue == INT64_MIN && other.intValue == -1){
			result.intValue = 0;''','''		if (intValue == INT64_MIN && other.intValue == 1){
			result.intValue = 0;'''),
 'quietzero':m(1,X,'''			result.intValue = ~0;
			Logger::queueError(Logger::Warning, "Integer division by zero in expression");
''','''			result.intValue = ~0;
'''),
 'ifsub':m(1,X,'result.floatValue = intValue - other.floatValue;','result.floatValue = other.floatValue - intValue;'),
 'ifdiv':m(1,X,'result.floatValue = intValue / other.floatValue;','result.floatValue = intValue / (int64_t) other.floatValue;'),
 'fimult':m(1,X,'result.floatValue = floatValue * other.intValue;','result.intValue = floatValue * other.intValue;'),
 'fidrop':m(1,X,'''	case ExpressionValueCombination::FI:
		return floatValue <= other.intValue;''','''	case ExpressionValueCombination::FI:
		return floatValue <= other.floatValue;'''),
 'lestr':m(1,X,'return strValue <= other.strValue;','return strValue < other.strValue;'),
 'gtswap':m(1,X,'	return other < *this;','	return !(*this < other);'),
 'neqstr':m(1,X,'	return !(*this == other);','	return type != other.type || !(*this == other);'),
 'concatswap':m(1,X,'result.strValue = StringLiteral(to_string(intValue)) + other.strValue;','result.strValue = other.strValue + StringLiteral(to_string(intValue));'),
 'fmt':m(1,X,'return tfm::format("%#.17g", value);','return tfm::format("%g", value);'),
 'fmtint':m(1,X,'return tfm::format("%d", value);','return tfm::format("%d", (int) value);'),
 'lognotf':m(1,X,'result.intValue = !floatValue;','result.intValue = !(int64_t) floatValue;'),
 'neg':m(1,X,'return val - children[0]->evaluate();','return children[0]->evaluate() - val;'),
 'bothbr':m(1,X,'''		if (children[0]->evaluate() == val)
			return children[2]->evaluate();
		else
			return children[1]->evaluate();''','''		{
			auto c = children[0]->evaluate();
			auto a = children[1]->evaluate();
			auto b = children[2]->evaluate();
			return c == val ? b : a;
		}'''),
 'condint':m(1,X,'if (children[0]->evaluate() == val)','if (children[0]->evaluate().intValue == 0)'),
 'ge':m(1,X,'val.intValue = children[0]->evaluate() >= children[1]->evaluate();','val.intValue = children[0]->evaluate() > children[1]->evaluate();'),
 'ltype':m(1,X,'''	case OperatorType::LessEqual:
		val.type = ExpressionValueType::Integer;
''','''	case OperatorType::LessEqual:
		val.type = ExpressionValueType::Float;
'''),
 'undefzero':m(1,X,'''			Logger::queueError(Logger::Error, "Undefined label \\"%s\\"",label->getName());
			return val;''','''			val.type = ExpressionValueType::Integer;
			return val;'''),
 'undefwarn':m(1,X,'''			Logger::queueError(Logger::Error, "Undefined label \\"%s\\"",label->getName());''','''			Logger::queueError(Logger::Warning, "Undefined label \\"%s\\"",label->getName());'''),
 'maxparams':m(1,X,'if (handle->maxParams() < children.size())','if (handle->maxParams() + 1 < children.size())'),
 'subint':m(1,X,'''		result.intValue = intValue - other.intValue;
		break;''','''		result.intValue = intValue - other.intValue;
		break;
	case ExpressionValueCombination::SI:
		result.type = ExpressionValueType::Integer;
		result.intValue = (int64_t) strValue.size() - other.intValue;
		break;'''),
 'andfloat':m(1,X,'result.intValue = floatValue && other.floatValue;','result.floatValue = floatValue && other.floatValue;'),
 # behaviour kept
 'q_climb':m(0,G,LADDER[a:b],CLIMB),
 'q_if':m(0,G,'''		switch (tokenizer.peekToken().type)
		{
		case TokenType::Plus:
			op = OperatorType::Add;
			break;
		case TokenType::Minus:
			op = OperatorType::Sub;
			break;
		default:
			break;
		}
''','''		const Token &tok = tokenizer.peekToken();
		if (tok.type == TokenType::Plus)
			op = OperatorType::Add;
		else if (tok.type == TokenType::Minus)
			op = OperatorType::Sub;
'''),
 'q_neq':m(0,X,'''	return !(*this == other);''','''	const bool equal = *this == other;
	return equal ? false : true;'''),
 'q_add':m(0,X,'result.intValue = intValue + other.intValue;','result = ExpressionValue((int64_t)((uint64_t)other.intValue + (uint64_t)intValue));'),
 'q_gt':m(0,X,'	return other < *this;','''	switch (getValueCombination(type,other.type))
	{
	case ExpressionValueCombination::II:
		return intValue > other.intValue;
	case ExpressionValueCombination::FI:
		return floatValue > other.intValue;
	case ExpressionValueCombination::IF:
		return intValue > other.floatValue;
	case ExpressionValueCombination::FF:
		return floatValue > other.floatValue;
	case ExpressionValueCombination::SS:
		return strValue > other.strValue;
	default:
		return false;
	}'''),
 'q_div':m(0,X,'''		if (other.intValue == 0)
		{
			result.intValue = ~0;
			Logger::queueError(Logger::Warning, "Integer division by zero in expression");
			return result;
		}
		result.intValue = intValue / other.intValue;
		break;''','''		if (other.intValue != 0)
		{
			const int64_t quotient = intValue / other.intValue;
			result.intValue = quotient;
			break;
		}
		Logger::queueError(Logger::Warning, "Integer division by zero in expression");
		result.intValue = ~0;
		break;'''),
 'q_eval':m(0,X,'''		return children[0]->evaluate() - children[1]->evaluate();''','''	{
		ExpressionValue a = children[0]->evaluate();
		ExpressionValue b = children[1]->evaluate();
		return a - b;
	}'''),
 'q_tern':m(0,X,'''		if (children[0]->evaluate() == val)
			return children[2]->evaluate();
		else
			return children[1]->evaluate();''','''		return children[children[0]->evaluate() == val ? 2 : 1]->evaluate();'''),
 'q_lex':m(0,T,'''	case '<':
		if (second == '<')
			createToken(TokenType::LeftShift,2);
		else if (second == '=')
			createToken(TokenType::LessEqual,2);
		else
			createToken(TokenType::Less,1);
		return true;''','''	case '<':
		switch (second)
		{
		case '<': createToken(TokenType::LeftShift,2); break;
		case '=': createToken(TokenType::LessEqual,2); break;
		default: createToken(TokenType::Less,1); break;
		}
		return true;'''),
 'q_and':m(0,G,'''	while (tokenizer.peekToken().type == TokenType::LogAnd)
	{
		tokenizer.eatToken();
''','''	for (;;)
	{
		if (tokenizer.peekToken().type != TokenType::LogAnd)
			break;

		tokenizer.nextToken();
'''),
}
