X='Core/Expression.cpp'; FN='Core/ExpressionFunctions.cpp'; A='Archs/ARM/ArmExpressionFunctions.cpp'; H='Core/ExpressionFunctionHandler.cpp'; P='Parser/Parser.cpp'
def m(x,*e): return ('C17',x,[(e[i],e[i+1],e[i+2]) for i in range(0,len(e),3)])
MUT={
 'posfold':m(1,X,'	case OperatorType::Identifier:\n	case OperatorType::MemoryPos:\n	case OperatorType::ToString:\n		return false;','	case OperatorType::Identifier:\n	case OperatorType::ToString:\n		return false;'),
 'identfold':m(1,X,'	case OperatorType::Identifier:\n	case OperatorType::MemoryPos:\n	case OperatorType::ToString:\n		return false;','	case OperatorType::MemoryPos:\n	case OperatorType::ToString:\n		return false;'),
 'tostr':m(1,X,'	case OperatorType::MemoryPos:\n	case OperatorType::ToString:\n		return false;','	case OperatorType::MemoryPos:\n		return false;'),
 'tostrchild':m(1,X,'	case OperatorType::ToString:\n		return false;\n','	case OperatorType::ToString:\n		children[0]->simplify(inUnknownOrFalseBlock);\n		return false;\n'),
 'anychild':m(1,X,'	bool canSimplify = true;\n','	bool canSimplify = children.empty();\n',X,'children[i]->simplify(unknown))\n			canSimplify = false;','children[i]->simplify(unknown))\n			canSimplify = false;\n		else if (i == 1) canSimplify = true;'),
 'lastchild':m(1,X,'		if (children[i] != nullptr && !children[i]->simplify(unknown))\n			canSimplify = false;','		if (children[i] != nullptr)\n			canSimplify = children[i]->simplify(unknown);'),
 'floatint':m(1,X,'			type = OperatorType::Float;\n			this->value = value.floatValue;','			type = OperatorType::Integer;\n			this->value = (int64_t) value.floatValue;'),
 'strlost':m(1,X,'			this->value = value.strValue;','			this->value = StringLiteral();'),
 'invalid0':m(1,X,'		default:\n			type = OperatorType::Invalid;\n			break;\n		}\n\n		children.clear();','		default:\n			type = OperatorType::Integer;\n			this->value = INT64_C(0);\n			break;\n		}\n\n		children.clear();'),
 'swapchosen':m(1,X,'children[isFalse ? 2 : 1]','children[isFalse ? 1 : 2]'),
 'noternary':m(1,X,'if (type == OperatorType::TertiaryIf && children[0]->simplify(inUnknownOrFalseBlock))','if (false && children[0]->simplify(inUnknownOrFalseBlock))'),
 'ternunknown':m(1,X,'inUnknownOrFalseBlock || (type == OperatorType::TertiaryIf && i != 0)','inUnknownOrFalseBlock'),
 'ternzero':m(1,X,'(type == OperatorType::TertiaryIf && i != 0)','(type == OperatorType::TertiaryIf && i == 1)'),
 'filenum':m(1,X,'			fileNum = chosen->fileNum;\n',''),
 'divguard':m(1,X,'(divisor.intValue == 0 || divisor.intValue == -1)','(divisor.intValue == -1)'),
 'modguard':m(1,X,'(type == OperatorType::Div || type == OperatorType::Mod)','(type == OperatorType::Div)'),
 'nosup':m(1,X,'		if (inUnknownOrFalseBlock)\n			Logger::suppressErrors();\n',''),
 'lostdiag':m(1,X,'			if (!value.isValid())\n				return false;\n',''),
 'condfn':m(1,X,'	if (inUnknownOrFalseBlock && safety == ExpFuncSafety::ConditionalUnsafe)\n		return false;\n',''),
 'unsafefn':m(1,X,'	return safety != ExpFuncSafety::Unsafe;','	return safety != ExpFuncSafety::Unsafe || !inUnknownOrFalseBlock;'),
 'condnever':m(1,X,'	return safety != ExpFuncSafety::Unsafe;','	return safety == ExpFuncSafety::Safe && !inUnknownOrFalseBlock;'),
 'missing':m(0,X,"		// well, a function that doesn't exist at least won't change its behavior...\n		return true;","		return false;"),
 'orgsafe':m(1,FN,'{ "org",        &expLabelFuncOrg,          0, 1, ExpFuncSafety::Unsafe}','{ "org",        &expLabelFuncOrg,          0, 1, ExpFuncSafety::Safe}'),
 'endsafe':m(1,FN,'&expFuncEndianness,     0, 0,   ExpFuncSafety::Unsafe','&expFuncEndianness,     0, 0,   ExpFuncSafety::Safe'),
 'defcond':m(1,FN,'1, 1, ExpFuncSafety::Unsafe','1, 1, ExpFuncSafety::ConditionalUnsafe'),
 'outsafe':m(1,FN,'&expFuncOutputName,     0, 0,   ExpFuncSafety::Unsafe','&expFuncOutputName,     0, 0,   ExpFuncSafety::ConditionalUnsafe'),
 'hdrsafe':m(1,FN,'{ "headersize", &expLabelFuncHeaderSize,   0, 1, ExpFuncSafety::Unsafe}','{ "headersize", &expLabelFuncHeaderSize,   0, 1, ExpFuncSafety::Safe}'),
 'armunsafe':m(1,A,'&expFuncIsArm,   0, 0, ExpFuncSafety::Safe','&expFuncIsArm,   0, 0, ExpFuncSafety::Unsafe'),
 'armcond':m(1,A,'&expFuncIsThumb, 0, 0, ExpFuncSafety::Safe','&expFuncIsThumb, 0, 0, ExpFuncSafety::ConditionalUnsafe'),
 'usersafe':m(1,H,'parameters.size(), parameters.size(), ExpFuncSafety::Unsafe','parameters.size(), parameters.size(), ExpFuncSafety::Safe'),
 'blockflag':m(1,P,'!isInsideTrueBlock() || isInsideUnknownBlock()','!isInsideTrueBlock()'),
 'blockflag2':m(1,P,'!isInsideTrueBlock() || isInsideUnknownBlock()','isInsideUnknownBlock()'),
 'constflag':m(1,X,'		constExpression = expression->simplify(inUnknownOrFalseBlock);','		expression->simplify(inUnknownOrFalseBlock);'),
 'constflag2':m(1,X,'		constExpression = expression->simplify(inUnknownOrFalseBlock);','		constExpression = expression->simplify(false);'),
 'readsafe':m(0,FN,'&expFuncFileSize,       1, 1,   ExpFuncSafety::ConditionalUnsafe','&expFuncFileSize,       1, 1,   ExpFuncSafety::Unsafe'),
 # behaviour kept
 'q_if':m(0,X,'''	switch (type)
	{
	case OperatorType::Identifier:
	case OperatorType::MemoryPos:
	case OperatorType::ToString:
		return false;
	case OperatorType::FunctionCall:
		if (!isExpressionFunctionSafe(valueAs<Identifier>(), inUnknownOrFalseBlock))
			return false;
		break;
	default:
		break;
	}
''','''	const bool dynamic = type == OperatorType::Identifier || type == OperatorType::MemoryPos || type == OperatorType::ToString;
	if (dynamic || (type == OperatorType::FunctionCall && !isExpressionFunctionSafe(valueAs<Identifier>(), inUnknownOrFalseBlock)))
		return false;
'''),
 'q_range':m(0,X,'''	for (size_t i = 0; i < children.size(); i++)
	{
		// it's not known which operand of a conditional expression will be evaluated
		bool unknown = inUnknownOrFalseBlock || (type == OperatorType::TertiaryIf && i != 0);
		if (children[i] != nullptr && !children[i]->simplify(unknown))
			canSimplify = false;
	}
''','''	bool unknown = inUnknownOrFalseBlock;
	for (auto &child : children)
	{
		if (child && !child->simplify(unknown))
			canSimplify = false;
		if (type == OperatorType::TertiaryIf) unknown = true;
	}
'''),
 'q_early':m(0,X,'''	// if so, this expression can be evaluated into a constant
	if (canSimplify)
	{
''','''	if (!canSimplify)
		return false;

	{
'''),
 'q_helper':m(0,X,'''		switch (value.type)
		{
		case ExpressionValueType::Integer:
			type = OperatorType::Integer;
			this->value = value.intValue;
			break;
		case ExpressionValueType::Float:
			type = OperatorType::Float;
			this->value = value.floatValue;
			break;
		case ExpressionValueType::String:
			type = OperatorType::String;
			this->value = value.strValue;
			break;
		default:
			type = OperatorType::Invalid;
			break;
		}
''','''		if (value.isInt())
		{
			type = OperatorType::Integer;
			this->value = value.intValue;
		} else if (value.isFloat())
		{
			type = OperatorType::Float;
			this->value = value.floatValue;
		} else if (value.isString())
		{
			type = OperatorType::String;
			this->value = value.strValue;
		} else {
			type = OperatorType::Invalid;
		}
'''),
 'q_safety':m(0,X,'''	ExpFuncSafety safety = handle->safety();

	if (inUnknownOrFalseBlock && safety == ExpFuncSafety::ConditionalUnsafe)
		return false;

	return safety != ExpFuncSafety::Unsafe;''','''	switch (handle->safety())
	{
	case ExpFuncSafety::Safe:
		return true;
	case ExpFuncSafety::ConditionalUnsafe:
		return !inUnknownOrFalseBlock;
	default:
		return false;
	}'''),
}
