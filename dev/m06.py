A='Commands/CDirectiveArea.cpp'; Q='Commands/CommandSequence.cpp'; C='Commands/CDirectiveConditional.cpp'; X='Archs/MIPS/MipsMacros.cpp'
O='Core/ELF/ElfRelocator.cpp'
def m(x,*e): return ('C06',x,[(e[i],e[i+1],e[i+2]) for i in range(0,len(e),3)])
MUT={
 'seqresult':m(1,Q,'''		if (cmd->Validate(state))
			result = true;''','''		result = cmd->Validate(state);'''),
 'seqshort':m(1,Q,'''		if (cmd->Validate(state))
			result = true;''','''		if (!result && cmd->Validate(state))
			result = true;'''),
 'seqbreak':m(1,Q,'''		if (cmd->Validate(state))
			result = true;''','''		if (cmd->Validate(state))
		{
			result = true;
			break;
		}'''),
 'seqskipfirst':m(1,Q,'''	for (const std::unique_ptr<CAssemblerCommand>& cmd: commands)
	{
		cmd->Encode();
	}''','''	for (size_t i = 1; i < commands.size(); i++)
	{
		commands[i]->Encode();
	}'''),
 'seqreverse':m(1,Q,'''	for (const std::unique_ptr<CAssemblerCommand>& cmd: commands)
	{
		cmd->writeSymData(symData);
	}''','''	for (auto it = commands.rbegin(); it != commands.rend(); ++it)
	{
		(*it)->writeSymData(symData);
	}'''),
 'condlost':m(1,C,'''		elseBlock->applyFileInfo();
		if (elseBlock->Validate(state))
			returnValue = true;''','''		elseBlock->applyFileInfo();
		elseBlock->Validate(state);'''),
 'condlive':m(1,C,'''	if (previousResult)
	{
		ifBlock->writeSymData(symData);''','''	if (previousResult || elseBlock == nullptr)
	{
		ifBlock->writeSymData(symData);'''),
 'condelse':m(1,C,'''	if (previousResult)
	{
		ifBlock->Encode();
	} else if (elseBlock != nullptr)''','''	if (previousResult)
	{
		ifBlock->Encode();
	} else if (elseBlock != nullptr && type == ConditionType::IF)'''),
 'areasym':m(1,A,'''	if (content)
		content->writeSymData(symData);

	if (fillExpression''','''	if (content && !shared)
		content->writeSymData(symData);

	if (fillExpression'''),
 'areaempty':m(1,A,'''	if (content)
		content->Encode();''','''	if (content && areaSize != contentSize)
		content->Encode();'''),
 'arearesult':m(1,A,'''	if (areaSize != oldAreaSize || contentSize != oldContentSize)
		result = true;''','''	result = areaSize != oldAreaSize || contentSize != oldContentSize;'''),
 'autonoresult':m(1,A,'''	if (position != oldPosition || contentSize != oldContentSize)
		result = true;

	return result;''','''	return position != oldPosition || contentSize != oldContentSize;'''),
 'autotemp':m(1,A,'''	tempData.writeLine(position,tfm::format(".autoregion 0x%08X",position));
	content->applyFileInfo();
	content->writeTempData(tempData);''','''	tempData.writeLine(position,tfm::format(".autoregion 0x%08X",position));
	content->applyFileInfo();
	if (contentSize != 0)
		content->writeTempData(tempData);'''),
 'macroret':m(1,X,'''		Logger::queueError(Logger::Warning, "Empty macro content");

	return result;''','''	{
		Logger::queueError(Logger::Warning, "Empty macro content");
		return false;
	}

	return result;'''),
 'macrotwice':m(1,X,'''	content->applyFileInfo();
	content->writeTempData(tempData);
}''','''	content->applyFileInfo();
	content->writeTempData(tempData);
	if (IgnoreLoadDelay) content->writeTempData(tempData);
}'''),
 'fnsym':m(1,'Commands/CAssemblerLabel.cpp','''	label->writeSymData(symData);
	content->writeSymData(symData);''','''	label->writeSymData(symData);
	if (end != start)
		content->writeSymData(symData);'''),
 # quiet
 'q_index':m(0,Q,'''	for (const std::unique_ptr<CAssemblerCommand>& cmd: commands)
	{
		cmd->applyFileInfo();
		if (cmd->Validate(state))
			result = true;
	}''','''	for (size_t i = 0; i < commands.size(); i++)
	{
		CAssemblerCommand& cmd = *commands[i];
		cmd.applyFileInfo();
		bool changed = cmd.Validate(state);
		result = result || changed;
	}'''),
 'q_iter':m(0,Q,'''	for (const std::unique_ptr<CAssemblerCommand>& cmd: commands)
	{
		cmd->Encode();
	}''','''	for (auto it = commands.begin(); it != commands.end(); ++it)
		(*it)->Encode();''',Q,'''		if (cmd->Validate(state))
			result = true;''','''		result |= cmd->Validate(state);'''),
 'q_while':m(0,Q,'''	for (const std::unique_ptr<CAssemblerCommand>& cmd: commands)
	{
		cmd->writeSymData(symData);
	}''','''	size_t i = 0;
	while (i != commands.size())
	{
		commands[i]->writeSymData(symData);
		++i;
	}'''),
 'q_foreach':m(0,Q,'''	for (const std::unique_ptr<CAssemblerCommand>& cmd: commands)
	{
		cmd->Encode();
	}''','''	auto emit = [](const std::unique_ptr<CAssemblerCommand>& cmd) { cmd->Encode(); };
	for (const auto& cmd: commands)
		emit(cmd);'''),
 'q_algo':m(0,Q,'#include "Commands/CommandSequence.h"','#include "Commands/CommandSequence.h"\n#include <algorithm>',Q,'''	for (const std::unique_ptr<CAssemblerCommand>& cmd: commands)
	{
		cmd->Encode();
	}''','''	std::for_each(commands.begin(), commands.end(), [](const std::unique_ptr<CAssemblerCommand>& cmd) { cmd->Encode(); });'''),
 'q_algo2':m(0,Q,'#include "Commands/CommandSequence.h"','#include "Commands/CommandSequence.h"\n#include <algorithm>',Q,'''	bool result = false;
	
	for (const std::unique_ptr<CAssemblerCommand>& cmd: commands)
	{
		cmd->applyFileInfo();
		if (cmd->Validate(state))
			result = true;
	}''','''	bool result = false;
	std::for_each(commands.begin(), commands.end(), [&](std::unique_ptr<CAssemblerCommand>& cmd) {
		cmd->applyFileInfo();
		if (cmd->Validate(state))
			result = true;
	});'''),
 'q_condhelper':m(0,C,'''void CDirectiveConditional::Encode() const
{
	if (previousResult)
	{
		ifBlock->Encode();
	} else if (elseBlock != nullptr)
	{
		elseBlock->Encode();
	}
}''','''static const CAssemblerCommand* chooseBlock(bool taken, const CAssemblerCommand* a, const CAssemblerCommand* b)
{
	return taken ? a : b;
}

void CDirectiveConditional::Encode() const
{
	const CAssemblerCommand* block = chooseBlock(previousResult, ifBlock.get(), elseBlock.get());
	if (block == nullptr)
		return;
	block->Encode();
}'''),
 'q_condinvert':m(0,C,'''	if (result)
	{
		ifBlock->applyFileInfo();
		if (ifBlock->Validate(state))
			returnValue = true;
	} else if (elseBlock != nullptr)
	{
		elseBlock->applyFileInfo();
		if (elseBlock->Validate(state))
			returnValue = true;
	}
''','''	if (!result)
	{
		if (elseBlock == nullptr)
			return returnValue;
		elseBlock->applyFileInfo();
		return elseBlock->Validate(state) || returnValue;
	}

	ifBlock->applyFileInfo();
	returnValue |= ifBlock->Validate(state);
'''),
 'q_areaor':m(0,A,'''	if (areaSize != oldAreaSize || contentSize != oldContentSize)
		result = true;
''','''	result = result || areaSize != oldAreaSize || !(contentSize == oldContentSize);
'''),
 'q_areaearly':m(0,A,'''	if (content)
		content->writeSymData(symData);

	if (fillExpression.isLoaded())
	{''','''	if (content != nullptr)
	{
		content->writeSymData(symData);
	}

	if (!fillExpression.isLoaded())
		return;
	{'''),
}
