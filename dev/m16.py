X='Core/ExpressionFunctions.cpp'; M='Archs/MIPS/MipsExpressionFunctions.cpp'; A='Archs/ARM/ArmExpressionFunctions.cpp'
def m(x,*e): return ('C16',x,[(e[i],e[i+1],e[i+2]) for i in range(0,len(e),3)])
MUT={
 'intround':m(1,X,'result.intValue = (int64_t) parameters[0].floatValue;','result.intValue = llround(parameters[0].floatValue);'),
 'roundhalf':m(1,X,'result.intValue = llround(parameters[0].floatValue);','result.intValue = (int64_t) floor(parameters[0].floatValue + 0.5);'),
 'frac':m(1,X,'result.floatValue = modf(parameters[0].floatValue,&intPart);','result.floatValue = parameters[0].floatValue - floor(parameters[0].floatValue);\n\t\tintPart = 0;'),
 'minmix':m(1,X,'''			floatCur = parameters[i].floatValue;
			isInt = false;
			break;
		default:
			return result;
		}

		if (intCur < intMin)''','''			floatCur = parameters[i].floatValue;
			isInt = false;
			break;
		default:
			continue;
		}

		if (intCur < intMin)'''),
 'maxlow':m(1,X,'floatCur = floatMax = std::numeric_limits<double>::lowest();','floatCur = floatMax = std::numeric_limits<double>::min();'),
 'maxmix':m(1,X,'			floatCur = (double)parameters[i].intValue;\n			break;\n		case ExpressionValueType::Float:\n			floatCur = parameters[i].floatValue;\n			isInt = false;\n			break;\n		default:\n			return result;\n		}\n\n		if (intCur > intMax)','			break;\n		case ExpressionValueType::Float:\n			floatCur = parameters[i].floatValue;\n			isInt = false;\n			break;\n		default:\n			return result;\n		}\n\n		if (intCur > intMax)'),
 'strlen':m(1,X,'return ExpressionValue((int64_t)source->size());','return ExpressionValue((int64_t)(source->size() & 0x3));'),
 'substrswap':m(1,X,'substr((size_t)start,(size_t)count)','substr((size_t)start,(size_t)(count-start))'),
 'substrend':m(1,X,'(size_t)start > source->size()','(size_t)start >= source->size()'),
 'findstart':m(1,X,'size_t pos = source->string().find(value->string(),(size_t)start);','size_t pos = source->string().find(value->string(),0);'),
 'findrel':m(1,X,'size_t pos = source->string().find(value->string(),(size_t)start);\n	return ExpressionValue(pos == std::string::npos ? INT64_C(-1) : (int64_t) pos);','size_t pos = source->string().substr((size_t)start).find(value->string());\n	return ExpressionValue(pos == std::string::npos ? INT64_C(-1) : (int64_t) pos);'),
 'rfinddef':m(1,X,'GET_OPTIONAL_PARAM(parameters,2,start,std::string::npos);','GET_OPTIONAL_PARAM(parameters,2,start,0);'),
 'rfindnone':m(1,X,'rfind(value->string(),(size_t)start);\n	return ExpressionValue(pos == std::string::npos ? INT64_C(-1) : (int64_t) pos);','rfind(value->string(),(size_t)start);\n	return ExpressionValue(pos == std::string::npos ? INT64_C(0) : (int64_t) pos);'),
 'tohexdef':m(1,X,'GET_OPTIONAL_PARAM(parameters,1,digits,8);','GET_OPTIONAL_PARAM(parameters,1,digits,0);'),
 'tohexlow':m(1,X,'"%0*X"','"%0*x"'),
 'tostr':m(1,X,'tfm::format("%#.17g",parameters[0].floatValue)','tfm::format("%#.6g",parameters[0].floatValue)'),
 'absint':m(1,X,'parameters[0].intValue : -parameters[0].intValue','parameters[0].intValue : (int32_t)-parameters[0].intValue'),
 'hicarry':m(1,M,'((value & 0x8000) != 0)','((value & 0x8000) == 0x8000 && (value & 0x7FFF) != 0)'),
 'himask':m(1,M,'(int64_t)((value >> 16) + ((value & 0x8000) != 0)) & 0xFFFF','(int64_t)(((value >> 16) & 0xFFFF) + ((value & 0x8000) != 0))'),
 'lo':m(1,M,'(int64_t)(int16_t)(value & 0xFFFF)','(int64_t)(uint16_t)(value & 0xFFFF)'),
 's16':m(1,X,'{ "reads16",       &expFuncRead<int16_t>','{ "reads16",       &expFuncRead<uint16_t>'),
 'seek':m(1,X,'	file.seekg(pos);','	file.seekg((int32_t)pos);'),
 'noshort':m(1,X,'''	if (file.fail())
	{
		Logger::queueError(Logger::Error, "Failed to read %d byte(s) from offset 0x%08X of %s", sizeof(T)''','''	if (file.fail() && !file.eof())
	{
		Logger::queueError(Logger::Error, "Failed to read %d byte(s) from offset 0x%08X of %s", sizeof(T)'''),
 'castu':m(1,X,'return ExpressionValue((int64_t) buffer);','return ExpressionValue((int64_t) (int32_t) buffer);'),
 'orga':m(1,X,'return ExpressionValue(parameters.front()->getPhysicalValue());','return ExpressionValue(parameters.front()->getValue());'),
 'hdr':m(1,X,'label->getValue() - label->getPhysicalValue()','label->getPhysicalValue() - label->getValue()'),
 'orgnofile':m(1,X,'''		Logger::queueError(Logger::Error, "headersize: no file opened");
		return ExpressionValue();''','''		return ExpressionValue((int64_t) 0);'''),
 'endian':m(1,X,'''	case Endianness::Little:
		return ExpressionValue(StringLiteral("little"));
	case Endianness::Big:
		return ExpressionValue(StringLiteral("big"));''','''	case Endianness::Little:
	case Endianness::Big:
		return ExpressionValue(StringLiteral("little"));'''),
 'isarm':m(1,A,'bool isThumb = Arm.GetThumbMode();','bool isThumb = !Arm.GetThumbMode();'),
 'regm':m(1,X,'std::regex_match(source->string(),regex)','std::regex_search(source->string(),regex)'),
 'regx':m(1,X,'(size_t)matchIndex >= result.size()','(size_t)matchIndex > result.size()'),
 'param':m(1,X,'if (index >= parameters.size() || !parameters[index].isInt())','if (index >= parameters.size() || parameters[index].isString())'),
 'arity':m(1,X,'{ "rfind",         &expFuncRFind,          2, 3,','{ "rfind",         &expFuncRFind,          2, 2,'),
 # behaviour kept
 'q_abs':m(0,X,'''		result.intValue = parameters[0].intValue >= 0 ?
			parameters[0].intValue : -parameters[0].intValue;''','''		result.intValue = std::abs(parameters[0].intValue);'''),
 'q_fabs':m(0,X,'fabs(parameters[0].floatValue)','std::abs(parameters[0].floatValue)'),
 'q_abs2':m(0,X,'fabs(parameters[0].floatValue)','parameters[0].floatValue < 0 ? -parameters[0].floatValue : parameters[0].floatValue'),
 'q_min':m(0,X,'''		if (intCur < intMin)
			intMin = intCur;
		if (floatCur < floatMin)
			floatMin = floatCur;''','''		intMin = std::min(intMin, intCur);
		floatMin = std::min(floatMin, floatCur);'''),
 'q_minr':m(0,X,'for (size_t i = 0; i < parameters.size(); i++)\n	{\n		switch (parameters[i].type)','for (const ExpressionValue& parameter : parameters)\n	{\n		switch (parameter.type)',X,'intCur = parameters[i].intValue;\n			floatCur = (double)parameters[i].intValue;','intCur = parameter.intValue;\n			floatCur = (double)parameter.intValue;',X,'floatCur = parameters[i].floatValue;','floatCur = parameter.floatValue;'),
 'q_int':m(0,X,'''	ExpressionValue result;

	switch (parameters[0].type)
	{
	case ExpressionValueType::Integer:
		result.intValue = parameters[0].intValue;
		break;
	case ExpressionValueType::Float:
		result.intValue = (int64_t) parameters[0].floatValue;
		break;
	default:
		return result;
	}

	result.type = ExpressionValueType::Integer;
	return result;''','''	const ExpressionValue& parameter = parameters.front();
	if (parameter.isInt())
		return parameter;
	if (parameter.isFloat())
		return ExpressionValue(static_cast<int64_t>(std::trunc(parameter.floatValue)));
	return {};'''),
 'q_str':m(0,X,'result.strValue = tfm::format("%d",parameters[0].intValue);','result.strValue = std::to_string(parameters[0].intValue);'),
 'q_hi':m(0,M,'(int64_t)((value >> 16) + ((value & 0x8000) != 0)) & 0xFFFF','((value + 0x8000) >> 16) & 0xFFFF'),
 'q_lo':m(0,M,'(int64_t)(int16_t)(value & 0xFFFF)','((value & 0xFFFF) ^ 0x8000) - 0x8000'),
 'q_find':m(0,X,'size_t pos = source->string().find(value->string(),(size_t)start);\n	return ExpressionValue(pos == std::string::npos ? INT64_C(-1) : (int64_t) pos);','size_t pos = source->string().find(value->string(),(size_t)start);\n	if (pos == std::string::npos)\n		return ExpressionValue(INT64_C(-1));\n	return ExpressionValue((int64_t) pos);'),
 'q_find2':m(0,X,'size_t pos = source->string().find(value->string(),(size_t)start);\n	return ExpressionValue(pos == std::string::npos ? INT64_C(-1) : (int64_t) pos);','return ExpressionValue((int64_t) source->string().find(value->string(),(size_t)start));'),
 'q_read':m(0,X,'	if (file.eof() || file.fail())','	if (!file)'),
 'q_readr':m(0,X,'''	T buffer;
	file.read(reinterpret_cast<char*>(&buffer), sizeof(T));

	if (file.fail())''','''	T buffer{};
	if (!file.read(reinterpret_cast<char*>(&buffer), sizeof(T)))'''),
 'q_label':m(0,X,'''		Label* label = parameters.front().get();
		if (!label)
			return ExpressionValue();

		if (!label->isDefined())''','''		const auto& label = parameters[0];
		if (label == nullptr)
			return ExpressionValue();

		if (!label->isDefined())'''),
}
