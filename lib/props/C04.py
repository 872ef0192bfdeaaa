from front import Broken
from prog import tail, walk_fn
from effects import show, overlap
import check as CK

RULE = """effect analysis of the output phases: the layout state is every location that parsing or layout writes and that an output phase or a later layout pass reads (commands, labels, symbols, reserved areas, expressions, tables); no overrider of the binary, listing or symbol output method, and nothing it calls, may write any of it; only the output channels themselves (file manager and output files, listing and symbol writers, reports and the current source position) are exempt, and even those may not carry a value from one output phase to another"""
ASSUMPTIONS = ['objects reached through an untracked temporary are not part of the layout state', 'the output file objects own the cursor (address, open handle) and contents they change while writing']

PHASES = (('binary', 'Encode() const'), ('listing', 'writeTempData(TempData &) const'), ('symbols', 'writeSymData(SymbolData &) const'))
# classes that are output channels: their own state is what output is allowed to change
CHANNEL = ('FileManager', 'AssemblerFile', 'SymbolData', 'TempData', 'TextFile', 'BinaryFile', 'ElfFile', 'ElfSection', 'ElfSegment', 'Logger')


def check(P, res, tier):
    E = CK.effects()
    roots = {}
    for nm, m in PHASES:
        roots[nm] = sorted(i for i in P.over['CAssemblerCommand::' + m] if i in P.fn)
    res.need(sum(map(len, roots.values())), 30, 'output_phase_methods')
    val = [i for i in P.over['CAssemblerCommand::Validate(const ValidateState &)'] if i in P.fn]
    if len(val) < 10: raise Broken('layout methods not found')
    channel = set()
    for c in CHANNEL: channel |= P.subs.get(c, set()) | {c}
    parse = [i for i in P.fn if P.fn[i]['name'] in ('Parser::parseFile',)]
    # state written while parsing and laying out, in absolute terms
    layout = {}
    for i in P.reach(val + parse):
        cls = P.fn[i].get('cls')
        for l in E.W[i]:
            a = absolute(P, i, l)
            if a is not None: layout.setdefault(a, i)
    # member initialisation by constructors counts as well: any member of a command or of a class commands refer to
    readers = set()
    for nm in roots:
        for r in roots[nm]:
            for l in E.R[r]:
                a = absolute(P, r, l)
                if a is not None and (a[1] or a[0][0] == 'G'): readers.add(a)
    allout = set()
    for nm in roots: allout |= P.reach(roots[nm])
    nw = 0; nfun = 0
    seen = set()
    for nm in roots:
        for r in roots[nm]:
            nfun += 1
            bad = []
            for l in sorted(E.W[r], key=str):
                nw += 1
                if exempt(P, r, l, channel): continue
                a = absolute(P, r, l)
                if a is None: continue
                if not is_layout(P, a, layout, readers): continue
                bad.append(l)
            res.ob('%s output of %s leaves the layout unchanged (%d writes examined)' % (nm, P.fn[r]['name'], len(E.W[r])), True)
            for l in bad:
                leafs = leaf(P, E, r, l)
                key = 'write/%s/%s' % (show(absolute(P, r, l)), leafs[0])
                if key in seen: continue
                seen.add(key)
                res.bad(key, '%s output (%s) changes layout data %s: %s' % (nm, P.where(r), show(l), E.witness(r, l, 'W')))
    res.stats['writes_examined'] = nw; res.stats['layout_locations'] = len(layout); res.stats['functions_reached_by_output'] = len(allout)
    # direct view: a function reached by output that writes fields of layout classes through this
    # (objects handed around as references keep their identity in the effect summaries; this catches writes whose
    # target the summaries attribute to an untracked temporary)
    laycls = set(P.subs.get('CAssemblerCommand', ())) | {'Label', 'SymbolTable', 'Allocations', 'Expression', 'ExpressionInternal'}
    k = 0
    for i in sorted(allout):
        f = P.fn[i]
        if f.get('cls') not in laycls or f.get('ctor') or f.get('dtor'): continue
        k += 1
        for l in E.DW[i]:
            if l[0] != ('T',) : continue
            key = 'write/%s/%s' % (show(absolute(P, i, l)), f['name'])
            if key in seen: continue
            if f['name'] == 'CAssemblerCommand::applyFileInfo': continue
            # construction of fresh objects (parsing inside evaluation) is not output state
            if fresh_only(P, E, i, allout, roots): continue
            seen.add(key)
            p = P.path_to([x for v in roots.values() for x in v], lambda y: y == i)
            res.bad(key, '%s:%s (%s) writes %s and is reached from output: %s' % (f['file'], E.DW[i][l][0], f['name'], show(l), ' -> '.join(P.fn[y]['name'] for y in p or ())))
    res.stats['layout_class_methods_reached'] = k
    res.ob('%d methods of layout classes reached by output examined' % k)


def fresh_only(P, E, i, allout, roots):
    """Every call of i from code reached by output is on an object the caller just created."""
    for c in allout:
        for n, ts in P.calls(c):
            if i in ts and n.get('k') == 'call':
                o = n.get('obj')
                if o is None: return False
                x = o
                while x.get('k') in ('cast', 'mem') or (x.get('k') == 'call' and x.get('op') in ('->', '*') and 'obj' in x):
                    x = x.get('e') or x.get('b') or x.get('obj')
                if x.get('k') == 'ref' and x.get('dk') == 'local':
                    t = P.ty(x.get('ty', ''))
                    if not t.get('ref') and 'ptr' not in t and not t.get('rec', '').startswith('std::shared'): continue
                if x.get('k') == 'this' and c != i and fresh_only(P, E, c, allout - {i}, roots): continue
                return False
    return True


def absolute(P, fid, l):
    (r, p) = l
    if r[0] in ('G', 'H'): return l
    cls = P.fn[fid].get('cls')
    if r[0] == 'T' and cls: return (('H', cls), p)
    if r[0] == 'P':
        ps = P.fn[fid]['params']
        if r[1] < len(ps):
            c = P.rec_of(ps[r[1]]['ty'].replace('&', '').replace('const ', '').strip()) or P.rec_of(ps[r[1]]['ty'])
            if c: return (('H', c), p)
    return None


def exempt(P, fid, l, channel):
    (r, p) = l
    if r[0] == 'P':
        return True      # the listing / symbol writer handed in
    if r[0] == 'H' and r[1] in channel: return True
    if r[0] == 'G':
        q = r[1]
        if q.startswith('Logger::') or q.startswith('std::'): return True
        if q.startswith('tFileInfo::') or (q == 'Global' and p and p[0].endswith('FileInfo')): return True
        t = P.vars.get(q, {}).get('ty', '')
        if 'mutex' in t: return True
        rec = P.ty(t).get('rec') or P.rec_of(t)
        if rec in channel: return True
    return False


def is_layout(P, a, layout, readers):
    if a[0][0] == 'H' and P.is_a(a[0][1], 'CAssemblerCommand'): return True
    if a[0][0] == 'G' and (a[0][1].startswith('Allocations::') or (a[0][1] == 'Global' and a[1] and a[1][0].endswith(('symbolTable', 'Table', 'fileList')))): return True
    if a[0][0] == 'H' and a[0][1] in ('Label', 'SymbolTable', 'Expression', 'ExpressionInternal', 'EncodingTable', 'FileList'): return True
    if not any(overlap(P, a, l) for l in readers): return False
    for l in layout:
        if overlap(P, a, l): return True
    return False


def leaf(P, E, fid, loc):
    w = E.W[fid].get(loc)
    n = 0
    while w and w[1] is not None and n < 20:
        fid, loc = w[1], w[2]; w = E.W[fid].get(loc); n += 1
    return (P.fn[fid]['name'], loc)
