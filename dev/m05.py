A='Core/Assembler.cpp'
def rm(f,l): return [(f,l,'')]
MUT={}
for i,l in enumerate(['	Global.Section = 0;\n','	Global.nocash = false;\n','	Global.relativeInclude = false;\n','	Architecture::setCurrent(InvalidArchitecture);\n','	Tokenizer::clearEquValues();\n','	Logger::clear();\n','	Allocations::clear();\n','	Global.Table.clear();\n','	Global.symbolTable.clear();\n','	Global.fileList.clear();\n','	Arm.clear();\n','	ExpressionFunctionHandler::instance().reset();\n','\n	g_fileManager->reset();\n','	Logger::setErrorOnWarning(settings.errorOnWarning);\n']):
    MUT['rm%d_%s'%(i,l.strip()[:18])]=('C05',1 if i!=13 else 0,rm(A,l))
MUT['mt']=('C05',0,rm(A,'	Global.multiThreading = true;\n'))
for f,ls in (('Core/Misc.cpp',['	queue.clear();\n	errors.clear();\n','	errors.clear();\n	error = false;\n','	fatalError = false;\n	errorOnWarning = false;\n']),('Archs/ARM/Arm.cpp',['	currentPoolContent.clear();\n	thumb = false;\n']),('Core/SymbolTable.cpp',['	labels.clear();\n','	equationsCount = 0;\n	uniqueCount = 0;\n}\n\nvoid SymbolTable::setFile','	symbols.clear();\n']),
  ('Core/Allocations.cpp',['	allocations.clear();\n	pools.clear();\n','	keepPositions = false;\n	next','	keptPositions = false;\n}\n\nvoid Allocations::setArea']),('Core/ExpressionFunctionHandler.cpp',['	entries.clear();\n	arch','	architectureFunctions.clear();\n}\n\nvoid ExpressionFunctionHandler::update'])):
    for i,l in enumerate(ls):
        keep = {'	equationsCount = 0;\n	uniqueCount = 0;\n}\n\nvoid SymbolTable::setFile':'	equationsCount = 0;\n}\n\nvoid SymbolTable::setFile','	keepPositions = false;\n	next':'	next','	keptPositions = false;\n}\n\nvoid Allocations::setArea':'}\n\nvoid Allocations::setArea','	entries.clear();\n	arch':'	arch','	architectureFunctions.clear();\n}\n\nvoid ExpressionFunctionHandler::update':'}\n\nvoid ExpressionFunctionHandler::update'}.get(l,'')
        MUT['in_%s%d'%(f[5:12].replace('/','_'),i)]=('C05',0 if 'architectureF' in l[:20] else 1,[(f,l,keep)])
MUT.update({
 'wrongval':('C05',0,[(A,'	Global.relativeInclude = false;','	Global.relativeInclude = true;')]),
 'wrongval2':('C05',0,[('Core/Allocations.cpp','	nextKeepPositions = true;\n	kept','	nextKeepPositions = false;\n	kept')]),
 'condreset':('C05',1,[(A,'	Global.symbolTable.clear();','	if (!settings.labels.empty())\n		Global.symbolTable.clear();')]),
 'late':('C05',1,[(A,'	Global.Table.clear();\n',''),(A,'	bool result = !Logger::hasError();','	Global.Table.clear();\n	bool result = !Logger::hasError();')]),
 'atend':('C05',1,[(A,'	Allocations::clear();\n',''),(A,'	return result;\n}','	Allocations::clear();\n	return result;\n}')]),
 'newstatic':('C05',1,[('Parser/DirectivesParser.cpp','std::unique_ptr<CAssemblerCommand> parseDirectiveArea(Parser& parser, int flags)\n{','std::unique_ptr<CAssemblerCommand> parseDirectiveArea(Parser& parser, int flags)\n{\n	static int count = 0;\n	if (++count > 1000)\n		return nullptr;\n')]),
 'newmember':('C05',1,[('Core/Allocations.cpp','bool Allocations::keptPositions = false;','bool Allocations::keptPositions = false;\nstatic int64_t lastSize = 0;'),('Core/Allocations.cpp','	Key key{ fileID, position };\n	allocations[key] = Usage{ space, usage, usesFill, shared };','	Key key{ fileID, position };\n	if (space < lastSize) space = lastSize;\n	lastSize = space;\n	allocations[key] = Usage{ space, usage, usesFill, shared };')]),
 # quiet
 'helper':('C05',0,[(A,'bool runArmips(ArmipsArguments& settings)\n{','static void resetTables()\n{\n	Allocations::clear();\n	Global.Table.clear();\n	Global.symbolTable.clear();\n}\n\nbool runArmips(ArmipsArguments& settings)\n{'),(A,'	Allocations::clear();\n	Global.Table.clear();\n	Global.symbolTable.clear();\n	Global.memory','	resetTables();\n	Global.memory')]),
 'allhelper':('C05',0,[(A,'bool runArmips(ArmipsArguments& settings)\n{\n	// initialize and reset global data','static void resetGlobals()\n{'),(A,'	// process settings\n','}\n\nbool runArmips(ArmipsArguments& settings)\n{\n	resetGlobals();\n')]),
 'fileref':('C05',0,[(A,'	Global.fileList.clear();\n	Global.FileInfo.TotalLineCount = 0;\n	Global.FileInfo.LineNumber = 0;\n	Global.FileInfo.FileNum = 0;','	Global.fileList = FileList();\n	tFileInfo& info = Global.FileInfo;\n	info.FileNum = info.LineNumber = info.TotalLineCount = 0;')]),
 'swap':('C05',0,[('Core/Misc.cpp','	queue.clear();\n	errors.clear();','	std::vector<QueueEntry>().swap(queue);\n	errors = {};')]),
 'after':('C05',0,[(A,'	Arm.clear();\n',''),(A,'	Token token;\n	for (','	Arm.clear();\n	Token token;\n	for (')]),
 'settings':('C05',0,[(A,'	Global.relativeInclude = false;\n',''),(A,'	Global.symbolTable.addLabels(settings.labels);','	Global.relativeInclude = {};\n	Global.symbolTable.addLabels(settings.labels);')]),
 'loopreset':('C05',0,[('Core/ExpressionFunctionHandler.cpp','	entries.clear();\n	arch','	entries.erase(entries.begin(), entries.end());\n	arch')]),
 'static':('C05',0,[('Parser/DirectivesParser.cpp','std::unique_ptr<CAssemblerCommand> parseDirectiveArea(Parser& parser, int flags)\n{','std::unique_ptr<CAssemblerCommand> parseDirectiveArea(Parser& parser, int flags)\n{\n	static const int zero = 0;\n	flags += zero;\n')]),
 'noop':('C05',0,[('Core/Allocations.cpp','	allocations.clear();\n','	(void)0;\n	allocations.clear();\n'),(A,'	Global.Section = 0;','	int unused = 0;\n	(void)unused;\n	Global.Section = 0;')]),
})
