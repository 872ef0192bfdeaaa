prop('C01', 'A failed assembly never modifies any output file',
 'Output files, and the optional listing and symbol files, are opened for writing, created or changed only once the whole source has been parsed and laid out and every problem found up to then has been printed and none of them was an error. If parsing, layout, region or overlap checking finds an error, the run returns failure and every file on disk is as it was before.',
 ['inputs', 'programs'], 'every source program and every error it can contain, in whatever phase the error is found',
 'the tests run a few failing sources and never compare the disk before and after; whether an error path reaches a write depends on the order of phases on every path',
 ['Core/Assembler.cpp', 'Core/FileManager.cpp', 'Core/Common.cpp', 'Commands/CDirectiveFile.cpp', 'Core/ELF', 'Core/SymbolData.cpp'],
 [('error gate before output', 'Core/Assembler.cpp encodeAssembly'), ('check-only opening of files during layout', 'Core/FileManager.cpp openFile / onlyCheck')],
 'path-sensitive interprocedural typestate (output gate) over call graph and CFG',
 'Every path of the run from start to each file-writing primitive, over all calls resolved by class hierarchy; assumes the standard library does not call back into the program.')

prop('C02', 'Every reported error makes the run fail',
 'Reporting a problem with error or fatal severity always makes the run return failure and the process exit with a non-zero code, and a warning does so exactly when warnings are treated as errors; a run without such a report succeeds with exit code zero. No report made while parsing or in the final layout pass is lost between being raised and being printed.',
 ['inputs', 'programs', 'configurations'], 'every sequence of reports in every phase, with and without warnings-as-errors',
 'the tests look at a handful of error messages; whether each of the hundreds of report sites leads to a failing exit depends on all paths from it to the exit code',
 ['Core/Common.cpp', 'Core/Assembler.cpp', 'Main/main.cpp', 'Main/CommandLineInterface.cpp'],
 [('severity to failure flag', 'Core/Common.cpp Logger'), ('final gates', 'Core/Assembler.cpp runArmips / encodeAssembly'), ('exit code', 'Main/main.cpp')],
 'severity-to-exit-code propagation by constant-specialised typestate',
 'All severities and all paths of the run; assumes a report queued only while writing output repeats one already checked.')

prop('C03', 'Parallel output phases never race',
 'The three output activities that run at the same time (binary, listing and symbol output) never access the same memory without synchronisation while one of them changes it, and all of them have ended before the run looks at their result or returns. Output is therefore the same whether they run in parallel or one after another.',
 ['schedules'], 'every interleaving of the concurrently running output activities',
 'a test observes one schedule, and the tests rarely ask for listing or symbol files',
 ['Core/Assembler.cpp', 'Core/Allocations.cpp', 'Commands', 'Core/FileManager.cpp', 'Core/SymbolData.cpp'],
 [('output threads', 'Core/Assembler.cpp encodeAssembly'), ('shared layout data', 'Core/Allocations.cpp, Core/SymbolData.cpp')],
 'interprocedural mod/ref effect analysis of each thread root, conflict detection, join analysis',
 'Effect sets over-approximate what each thread may read or write; locations are distinguished by global, class member and path.')

prop('C04', 'Writing output never changes the layout that was validated',
 'After the final layout pass, producing the binary, the listing and the symbol file only reads the commands, labels, symbols and reserved areas that were laid out: none of the three changes a position, size, value or list they hold. All three outputs therefore describe the same layout.',
 ['programs', 'schedules'], 'every command kind and every program made of them',
 'an output phase that alters layout data shows only for particular combinations of commands and output files',
 ['Commands', 'Archs', 'Core/SymbolTable.cpp', 'Core/Allocations.cpp'],
 [('const output phases', 'Commands/CAssemblerCommand.h Encode / writeTempData / writeSymData')],
 'interprocedural mod/ref effect analysis of the output phases against the layout state',
 'Effects over all overriders of the output phases; writes through const_cast, mutable or globals are seen as writes.')

prop('C05', 'Consecutive runs in one process do not influence each other',
 'The result of assembling a program does not depend on what was assembled earlier in the same process: every piece of process-wide state that parsing, layout or output changes is set to a state that does not depend on the earlier run before the next program is parsed. This covers definitions, labels, regions, reserved areas, loaded tables, architecture settings, counters, error lists and open files.',
 ['histories'], 'every sequence of runs in one process',
 'the tests run each program with little that can leak between runs, in one order',
 ['Core/Assembler.cpp', 'Core/Common.cpp', 'Core/Allocations.cpp', 'Core/SymbolTable.cpp', 'Archs', 'Parser/Tokenizer.cpp'],
 [('reset at start of a run', 'Core/Assembler.cpp runArmips'), ('process-wide state', 'Core/Common.cpp Global, Logger, Allocations, architectures')],
 'must-reset dataflow over all mutable process-wide state written by a run (effect analysis)',
 'State is enumerated from the program (globals, statics and their members); a member counts as reset when every path to the parser assigns or clears it.')

prop('C06', 'Nested blocks take part in every phase, in source order',
 'A command that contains other commands (block, conditional, area, automatic region, function, macro or imported object) lays out and outputs all contained commands that are in force, in their order, in every phase that applies to it, and the branch chosen by layout is the one that is output. A changed position inside a nested block is reported to the enclosing one.',
 ['programs'], 'every nesting of blocks and commands',
 'a dropped or reordered phase shows only for that container, that phase and certain contents',
 ['Commands/CommandSequence.cpp', 'Commands/CDirectiveConditional.cpp', 'Commands/CDirectiveArea.cpp', 'Commands/CDirectiveFile.cpp', 'Archs/MIPS/MipsMacros.cpp'],
 [('containers', 'CommandSequence, CDirectiveConditional, CDirectiveArea, CDirectiveAutoRegion, CDirectiveFunction, DirectiveObjImport, MipsMacroCommand')],
 'container/phase completeness: path-sensitive delegation analysis over every command class',
 'All classes that own commands are found from their member types.')

prop('C07', 'Bytes reserved in layout equal bytes written to output',
 'For every command, the distance by which layout advances the output position equals the number of bytes (or the forward seek) that output writes for it, so that every label, every following command and the area and overlap checks refer to the place where bytes really land.',
 ['inputs', 'programs'], 'every command of every architecture with every operand',
 'tests check a few sizes; equality must hold for each command on each path',
 ['Commands', 'Archs'],
 [('advance in Validate, write in Encode', 'Commands/CDirectiveData.cpp, Commands/CDirectiveFile.cpp, Archs/*/C*Instruction.cpp')],
 'symbolic byte-count dataflow over the Validate/Encode pair of every command class',
 'Byte counts are compared as normalised expressions of command state that output may not change.')

prop('C08', 'Every layout change triggers another layout pass',
 'Whenever a layout pass leaves anything that another command or a later pass reads different from what it found - the value, physical value or definition of a label (also one defined by an imported object), the place, size and usage of an area or region, the place and size an automatic region remembers - that pass reports a change and another pass runs before anything is output. Output is produced only from a pass in which nothing changed. The number of passes is bounded and exceeding the bound is an error.',
 ['programs'], 'every program whose sizes or addresses depend on later positions',
 'only programs with particular forward references need the second or third pass, and the tests contain few',
 ['Core/Assembler.cpp', 'Commands', 'Archs', 'Core/Allocations.cpp', 'Core/ELF/ElfRelocator.cpp'],
 [('revalidation result', 'Validate of every command'), ('relocator change flag', 'ElfRelocator::relocate, PsxRelocator::relocate'), ('pass loop', 'Core/Assembler.cpp encodeAssembly')],
 'path-wise abstract interpretation of every layout function: unchanged result implies unchanged layout state; concrete interpretation of the pass loop over all sequences of pass results',
 'Every Validate overrider on every path, both relocators and the pass loop. A value only the command itself recomputes before use (such as the size of a fill) need not be reported.')

prop('C09', 'Instruction operands that do not fit are rejected, never silently cut',
 'When the value of an immediate, offset, shift amount, coprocessor number, literal address or branch target of an instruction (taken as a 32-bit number) cannot be represented in the field the instruction provides for it, neither as a signed nor as an unsigned number of that width, or does not have the alignment the field needs, assembling fails with an error; the value is never silently truncated, wrapped or rounded into the field. Values that fit are never rejected.',
 ['inputs'], 'all operand values for every opcode form and variant',
 'tests use a few values per opcode, boundaries are unchecked for most fields',
 ['Archs/MIPS/CMipsInstruction.cpp', 'Archs/ARM/CArmInstruction.cpp', 'Archs/ARM/CThumbInstruction.cpp', 'Archs/SuperH/CShInstruction.cpp'],
 [('range checks', 'Validate of the instruction classes'), ('field insertion', 'Encode of the instruction classes')],
 'abstract interpretation of layout and output code specialised to every opcode row: acceptance conditions and output bits as functions of the operand, injectivity and comparison with reference acceptance sets',
 'Every opcode row, variant and operand form of the four architectures; differences are searched at the boundary values of every comparison and field width. MIPS j/jal targets are taken modulo 256 MB as the instruction does.')

prop('C10', 'Machine code matches the instruction set',
 'For every mnemonic, operand form and processor variant the assembler accepts, the emitted bits are the ones the architecture manual assigns: fixed opcode bits, register, condition, shift and immediate fields each at their place, with the documented scaling and bias. A mnemonic is accepted exactly on the processor variants that have it.',
 ['inputs'], 'every row of every opcode and register table with all operand values',
 'tests cover a sample of opcodes with one operand set each',
 ['Archs/MIPS/MipsOpcodes.cpp', 'Archs/MIPS/CMipsInstruction.cpp', 'Archs/ARM/ArmOpcodes.cpp', 'Archs/ARM/ThumbOpcodes.cpp', 'Archs/ARM/CArmInstruction.cpp', 'Archs/ARM/CThumbInstruction.cpp', 'Archs/SuperH/ShOpcodes.cpp', 'Archs/SuperH/CShInstruction.cpp'],
 [('opcode tables', 'Archs/*/ *Opcodes.cpp'), ('encoders', 'Encode of the instruction classes')],
 'abstract interpretation with a per-bit provenance domain, specialised to every table row, against a reference encoding',
 'Reference bit layouts were vetted against an independent disassembler where one is available and are compared bit by bit.')

prop('C11', 'Expressions follow the documented operators and precedence',
 'Expressions are evaluated with the documented operators, precedence and associativity (those of C, with ?: lowest): each operator spelling denotes its operation on 64-bit integers (>> is logical), mixing integers with floats computes in floating point, + concatenates when one side is a string, strings compare with strings, comparisons and logical operators give 0 or 1, && and || accept integers and floats, ?: evaluates only the chosen operand. Operations that are not defined for their operand types give no value, which every user of the expression reports as an error; integer division by zero is reported and never stops the assembler; undefined labels are errors.',
 ['inputs'], 'every expression: every operator, every combination of operand types and values, every grouping',
 'tests evaluate a few dozen expressions; each operator times operand-type combination and each pair of operators must be right',
 ['Core/Expression.cpp', 'Parser/ExpressionParser.cpp', 'Parser/Tokenizer.cpp'],
 [('operator semantics', 'Core/Expression.cpp'), ('precedence ladder', 'Parser/ExpressionParser.cpp'), ('operator tokens', 'Parser/Tokenizer.cpp parseOperator')],
 'abstract interpretation of lexer, grammar and evaluation with symbolic operands, compared with the documented operator table',
 'All operator x operand-type combinations and all pairs of operators; result terms that are not syntactically equal to the documented ones are compared at boundary values. Shift counts outside 0..63 and the text form of floats in comparisons are not specified.')

prop('C12', 'Multi-byte values are emitted in the target byte order',
 'Every 16-, 32- and 64-bit value the assembler emits or patches, in raw files, object files, literal pools and instructions, has its bytes in the order of the selected byte order, each byte exactly once, and reading a value back yields the value written.',
 ['inputs', 'configurations'], 'all values, both byte orders',
 'tests are almost all little endian and use few values',
 ['Core/FileManager.cpp', 'Util/ByteArray.cpp', 'Util/ByteArray.h', 'Archs', 'Commands/CDirectiveData.cpp'],
 [('byte-wise writers', 'Core/FileManager.cpp writeU8..writeU64, Util/ByteArray.cpp')],
 'abstract interpretation with a per-bit provenance domain of every multi-byte accessor for each byte order',
 'All accessors found by signature; equality is decided bit by bit for all values at once.')

prop('C13', 'Assembling always comes to an end',
 'Whatever the source text, parsing and layout come to an end: every loop over the text, the tokens, an expression, an instruction pattern or the bytes to write makes progress on every round or stops at the end of what it goes through; no routine calls itself again at the same place of the text without having consumed anything; nested includes, macro calls and user defined functions, and chains of equ replacements, are cut off by an error at a fixed depth; and the number of layout passes is limited.',
 ['inputs', 'programs'], 'every input file, including truncated and malformed ones',
 'tests only contain inputs that end; a missing end-of-input exit hangs on inputs nobody wrote down',
 ['Parser', 'Core', 'Archs', 'Commands', 'Util'],
 [('token loops', 'Parser/Parser.cpp, Parser/DirectivesParser.cpp, Parser/ExpressionParser.cpp'), ('tokenizer', 'Parser/Tokenizer.cpp'), ('depth limits', 'Parser/Parser.cpp Parser::parse, updateFileInfo, Parser/Tokenizer.cpp, Core/ExpressionFunctionHandler.cpp'), ('pass limit', 'Core/Assembler.cpp encodeAssembly')],
 'stuck-path search on every natural loop (a cyclic path without progress that stays feasible at the end of the input is a violation) with interprocedural consumption typestate of the token streams, and a depth-limit analysis of every call cycle of the type-checked program',
 'Object files and archives given to .importobj and the like, whose own offsets drive loops, are not source text and not covered; neither is the time a huge but finite count takes.')

prop('C14', 'Text in an untaken branch has no effect',
 'Source text inside a conditional branch that is known not to be taken while parsing, or read in the trial parse that collects the labels of a macro, has no effect on the text after it: it defines no constant, macro, label, symbol or expression function, opens no file, changes no setting (architecture, instruction set mode, section, memory file, options) and produces no output. Conditional directives inside it are still matched so that the right end belongs to the right start, conditions of nested blocks combine, and the block whose condition holds is the one that is assembled.',
 ['programs'], 'every nesting of conditionals around every directive',
 'tests have a few conditionals with simple contents',
 ['Parser', 'Archs/MIPS/MipsParser.cpp', 'Archs/ARM/ArmParser.cpp', 'Archs/SuperH/ShParser.cpp', 'Commands'],
 [('true/false block tracking', 'Parser/Parser.cpp pushConditionalResult, isInsideTrueBlock, parseConditionalBlock'), ('conditional directives', 'Parser/DirectivesParser.cpp parseDirectiveConditional'), ('trial parse', 'Parser/Parser.cpp parseMacroCall')],
 'interprocedural mod/ref effect analysis of the whole parser under the hypothesis "not assembled" (branches decided by the block state are cut, saved and restored state is discounted), plus abstract interpretation of the block state machine against a reference',
 'Effects on everything later parsing or layout reads, from every directive and opcode parser. An equ in an untaken block is skipped; tokens read ahead are not effects. Block state compared with the reference for every start state and condition and for nestings up to depth three; deeper ones follow since each level only reads the one above.')

prop('C15', 'Parser state is balanced on every path',
 'Whatever a construct contains and however it fails, leaving it restores what entering it changed: open conditionals, the nesting of files, macros and function calls, suppressed errors, the mode of searching a macro for labels and the overridden source location are as before on every path. A construct tried in vain gives back every token it took, so that the next possibility is tried at the same place, or else reports an error; and an error in one statement never causes a later one to be dropped.',
 ['inputs', 'programs'], 'every path, including every error path, of every parsing routine',
 'error paths are hardly covered by tests',
 ['Parser/Parser.cpp', 'Parser/DirectivesParser.cpp', 'Core/Expression.cpp', 'Core/ExpressionFunctionHandler.cpp', 'Archs'],
 [('conditional stack', 'Parser/DirectivesParser.cpp parseDirectiveConditional'), ('token sources and trial parse', 'Parser/Parser.cpp parse, parseMacroCall, parseTemplate'), ('alternatives', 'Parser/Parser.cpp parseCommandSequence, parseCommand, TokenSequenceParser::parse; Archs/*/*Parser.cpp parseOpcode, parseMacro'), ('error suppression', 'Core/Expression.cpp simplify, Core/Misc.h Logger')],
 'interprocedural level typestate: unique net level of every stack, counter and scoped setting at all exits of every function, and token-consumption typestate of every attempt and every loop over alternatives',
 'Every open/close pair found in the program and all CFG paths with constant correlation. Exceptions are not followed. Tokens a failed statement has already taken when it reports its error are not given back, by design.')

prop('C16', 'Built-in expression functions give the documented values',
 'Every built-in function of the Readme table exists under its documented name and arity and yields the documented value of the documented type for every argument: conversions (int, float, frac, abs, round, hi, lo, tostring, tohex), string functions (strlen, substr, find, rfind, regex_match and relatives, isstring), file functions (fileexists, filesize, readu8 to reads64, readascii with their byte count, sign and file position), position functions (org, orga, headersize, outputname, endianness, isarm, isthumb, defined and the min/max/label functions). Arguments of the wrong type, or outside the string, file or label they refer to, give no value and an error, never a made-up one.',
 ['inputs'], 'all arguments of all functions',
 'tests call a few functions with a few arguments; each function must be right for every argument and type',
 ['Core/ExpressionFunctions.cpp', 'Archs/MIPS/MipsExpressionFunctions.cpp', 'Archs/ARM/ArmExpressionFunctions.cpp', 'Core/ExpressionFunctionHandler.cpp', 'Core/Expression.cpp', 'Core/Types.cpp'],
 [('function tables', 'Core/ExpressionFunctions.cpp, Archs/*/*ExpressionFunctions.cpp'), ('arity and dispatch', 'Core/ExpressionFunctionHandler.cpp')],
 'abstract interpretation of every function body with symbolic arguments of every type, compared with reference terms of the documented result',
 'Not specified: filesize of a missing file, a negative start or count of find and substr, tohex with more than 40 digits, int of a float outside the 64-bit range.')

prop('C17', 'Folding an expression while parsing never changes its meaning',
 'An expression is worth the same whether or not the assembler computes parts of it while parsing: whatever depends on labels, the output position, the open file or other state of layout is computed at its place during layout, whatever depends on state only parsing keeps (the instruction set mode) is computed while parsing, operands that are not evaluated (the unchosen side of ?:, everything in a block that is not taken) cause no error, warning or file access, and no diagnostic of an evaluated operand gets lost. An expression is treated as constant only if its value is the same at every time, and constant expressions outside such blocks always are.',
 ['inputs', 'programs'], 'every expression at every place of a program',
 'folding is invisible unless a particular mix of constant and changing operands meets a particular state; tests cover few mixes',
 ['Core/Expression.cpp', 'Core/ExpressionFunctions.cpp', 'Core/ExpressionFunctionHandler.cpp', 'Parser/Parser.cpp'],
 [('folding', 'Core/Expression.cpp ExpressionInternal::simplify'), ('function safety classes', 'Core/ExpressionFunctions.cpp, Archs/*/*ExpressionFunctions.cpp'), ('block state', 'Parser/Parser.cpp parseExpression')],
 'abstract interpretation of fold-then-evaluate against evaluate on expression trees with time-dependent leaves, plus effect analysis of every built-in function against the state layout and parsing write',
 'Trees up to depth three cover every operator with every kind of operand; deeper trees follow by induction over the folding recursion. Functions defined by the program must never be folded.')
