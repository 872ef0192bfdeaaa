import json,sys,os
sys.path.insert(0,'/verif/lib')
HEAD=r'''# Static verification of Kingcom/armips

Everything here decides properties of armips from its source text. Nothing of armips is run, neither on
concrete nor on symbolic input, to reach a verdict: the type-checked program is extracted once from
/repo's working tree and judged by dataflow, typestate, effect and abstract-interpretation rules. Each
property's rule is in `lib/props/Cnn.py` (`RULE`), with what it takes for granted (`ASSUMPTIONS`);
`properties.jsonl` has the statements, `known-findings.txt` what was found and repaired in /repo,
`seeded/` planted bugs with demonstrations, `dev/mNN.py` mutation suites.

## 1. How it works

**Front end** (`extractor/extract.cpp`, `lib/front.py`). A clang 18 tool built by `setup_cmd` (and on demand): /repo is
configured with CMake into a scratch directory to get the compile commands, then every translation unit is
type-checked and its functions, records, enums, globals and types are written as JSON: resolved callees, implicit
conversions, constant values, destructors, lambdas, initialisers, file and line. /repo itself is not written. Each
check extracts the current tree anew (25 s on 8 cores); `VERIF_CACHE=dir` keeps extractions while developing. If a file
does not compile or the configuration fails the check ends with exit 2, never with a verdict.

**Program model** (`prog.py`): call graph by class hierarchy and by function-pointer and table flow (directive
tables, opcode tables, expression function tables, lambdas), constant tables as data.

**Analyses shared by the checks**

| module | what it is |
|---|---|
| `cfg.py` | control-flow graphs with short-circuit operators, scope exits and destructor calls explicit; dominators |
| `effects.py` | interprocedural mod/ref summaries over field-sensitive abstract locations, with aliases of reference parameters, and lock sets |
| `exposed.py` | upward-exposed reads and must-writes (C05) |
| `typestate.py` | property simulation: automaton states correlated with constant booleans, enums, null tests and call results; summaries specialised on constant arguments |
| `absint.py`, `terms.py` | path-wise abstract interpreter of function bodies; values are normalised terms (linear arithmetic, bit fields with provenance of each bit, folds over containers, closed forms for counted loops) |
| `machine.py`, `phases.py` | command objects, file manager and layout/output phases for the interpreter |
| `isa.py`, `isaref.py`, `leaf.py` | instruction tables: the program's own opcode parser, checks and encoder interpreted per table row with unknown operands; reference encodings from `ref/` |
| `parsefx.py` | effects of parsing under the hypothesis "this text is not assembled" |
| `progress.py` | streams, consumption typestate, natural loops, search for paths that come back to the head unchanged |

**Verdict** (`check.py`). Each examined rule instance is one obligation; the evidence file lists how many functions,
paths, rows, call sites and obligations were examined, with samples. A failed obligation prints the construct and
`VIOLATION property=...` unless it is a listed finding; none is listed at present, all findings were repaired.
Vacuity guards (`Result.need`) end with exit 2 when a rule no longer finds the code it judges; they are set far below
the present counts so that ordinary refactorings don't trip them.

Undecided is quiet: where the interpreter loses a value (`?`), the obligation is dropped, not reported. The number
of dropped ones is in the evidence where a property has any.

**Quick and thorough.** Most analyses are exhaustive for their abstraction, so the two tiers differ only where a search has a size
(C09, C10: more operand values and spellings per row; C11: longer token strings in `thorough`).

Cost: 25 s of extraction per run, then 5 to 60 s per check, C09 and C10 100 to 150 s.

## 2. Properties, method, bounds
'''
DET={
'C01':'Automaton (clean / reported / queued / flushed+read clear) run from `runArmips` over all calls; every std::fstream open for writing, truncation, copy, remove and rename is an event. Also classifies the "can this be written" probe: truncation only of a path seen not to exist, removal only then. Exhaustive over paths; branch correlation limited to constants. Not decided: what happens to an output when the disk fails in the middle of writing (the property is about failed assemblies only).',
'C02':'Same engine. Every severity from every print/queue site is followed to the exit code; the flag may be cleared only at the start of a run; suppression must be balanced. The one queue site outside validation that only output reaches is named in the assumptions.',
'C03':'Thread bodies are found from std::thread constructions; mod/ref sets of everything that can overlap in time; conflict = overlapping locations, one write, no common mutex. Join on every path. Static conflict analysis reports any potential conflict, so four real races (fixed) were found that no schedule had shown.',
'C04':'Effect analysis, all overriders of the output methods and everything they reach. The exempt list is the output channels; exempted state may not be read across phases before being written.',
'C05':'Every static-storage variable and member is enumerated from the program, not from a list. Must-write on every path from `runArmips` before first read.',
'C06':'Interpretation of each owner class (sequence, conditional, area, region, function, MIPS macro): order and identity of contained commands per phase on every path, conditions correlated by the stored state.',
'C07':'Interpretation of Validate and Encode of every command class, compared as terms. Loops over data lists become sums or conserved differences. Contained commands are the induction hypothesis. Object file importers only up to the relocator contract (size returned = size of data).',
'C08':'Every Validate path returning "unchanged" must leave everything read by the next pass as found. The pass loop itself is executed concretely over all sequences of "changed/unchanged" up to the pass limit. Convergence itself is not claimed: a program whose layout oscillates ends in an error at the limit, which is what is checked.',
'C09':'Interpretation of parser, check and encoder for every row; acceptance sets compared on boundary values of each comparison and field width on both sides. 32-bit operand model.',
'C10':'Per-bit provenance of the encoded words against reference encodings (`ref/*.txt`, produced by `dev/mkref.py`, vetted with llvm-mc by `dev/vet.py`; SuperH, PSP VFPU and RSP by hand against the manuals as far as known offline). The reference is data of /verif; it is not regenerated from /repo.',
'C11':'Lexer, grammar and evaluation separately, glued by token kinds and operator kinds. All strings of two binary operators, unary/binary mixes, brackets, calls and ?: are interpreted; longer ones follow from the recursive-descent structure (each level only calls the next one). Result types for every combination of operand types.',
'C12':'Bytes as provenance of bits; both orders; header structs of ELF and PSX libraries included; every raw write of a multi-byte number must come from an ordered writer.',
'C13':'Natural loops: search for a path from the head to the head on which nothing the loop reads changes, in the two situations of a stream (has more / at its end: every token Invalid, taking something has no effect). Call-graph cycles with stream consumption; depth limits; equ replacement; pass limit. Loops whose condition is opaque (object files, library iterators) are only required to change something. This is the weakest spot of C13: a loop that changes something irrelevant forever is not found.',
'C14':'Effect analysis of everything reachable from parsing, pruned by branch conditions the hypothesis decides; discounted are effects saved and restored around the block. Block state machine interpreted for every start state, condition and chain form.',
'C15':'Typestate over levels: stacks and counters are found by their push/pop or ++/-- pairs; settings by a path that switches them on and back off with calls in between. Summaries must be single-valued (or determined by the returned constant), zero at the outermost functions. Attempts (routines whose failure leads to trying another one, and loops over alternatives) must give back what they took unless they reported an error; each statement starts with a clear error flag. Not decided: a malformed statement may still swallow the line after it where the routine that failed had already taken the separator (only diagnostics are affected: an error has been reported).',
'C16':'Each function of the tables is interpreted for every argument type combination; reference terms of the documented result at boundary values; file and label state symbolic.',
'C17':'The folding function is interpreted on trees of each operator and operand class, at parse time and at a later time with other state; plus effect classes of every built-in.',
}
m=json.load(open('/verif/MANIFEST.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import importlib
o=[HEAD]
for p in props:
    i=p['id']
    o.append('### %s %s\n'%(i,p['title']))
    if os.path.exists('/verif/lib/props/%s.py'%i):
        mod=importlib.import_module('props.'+i)
        o.append(DET[i]+'\n')
        o.append('Assumes: '+'; '.join(mod.ASSUMPTIONS)+'.\n')
    else: o.append('Not claimed.\n')
T=['| bug | property | what it breaks |','|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    q=json.load(open('/verif/seeded/%s/meta.json'%d)); T.append('| %s | %s | %s |'%(d,q['property'],q['what_it_breaks']))
o.append(open('/verif/dev/design_tail.md').read().replace('@TABLE@','\n'.join(T)))
open('/verif/DESIGN.md','w').write('\n'.join(o))
print(len('\n'.join(o)))
