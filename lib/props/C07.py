"""C07: bytes reserved in layout equal bytes written to output."""
import check as CK
import phases as F
import terms as T
from absint import Interp, show
from prog import tail
from machine import emit

RULE = """path-wise abstract interpretation of every command class: layout (from an arbitrary state, without error, reporting no change) and then binary output (from the state layout left) are interpreted on every path; output position, header size, open file and byte order after output must equal the ones after layout as normalised terms; loops are closed forms (sums, conserved differences, folds over contained commands, whose own step is the induction hypothesis); the file classes must move their position and the stream by exactly the number of bytes they are given"""
ASSUMPTIONS = ['a contained command moves the position alike in layout and output: the induction hypothesis, checked for each class on its own',
               'the relocators return in their argument the size of the data they made', 'a file read for .incbin is smaller than 2 GB',
               'objects reached only through a container of owned commands are not null']
LEVEL = 'other'

ARCH = {'CThumbInstruction': 'thumb', 'CArmInstruction': 'arm', 'CMipsInstruction': 'mips', 'CShInstruction': 'sh'}


def where(P, fid):
    return P.where(fid) if fid else '?'


def explain(w):
    if w is None: return ''
    cs, d = w
    try: return 'layout minus output = %s%s' % (show(d)[:200], (' when ' + ' and '.join(('' if p else 'not ') + show(c)[:80] for c, p in cs)) if cs else '')
    except Exception: return ''


def check(P, res, tier):
    E = CK.effects()
    npaths = ncls = nund = 0
    instr = {}
    for cls in F.commands(P):
        I0 = F.Paths(P, E)
        v, e = F.phase_of(P, I0, cls, 'Validate'), F.phase_of(P, I0, cls, 'Encode')
        if v is None or e is None: continue
        isin = cls in ARCH or (cls.endswith('Instruction') and not P.rec[cls].get('abstract'))
        try:
            out, kills, n = F.enum(P, E, cls, ['Encode'], join=isin, assume_quiet=not isin)
        except F.Undecided as x:
            nund += 1; res.stats.setdefault('undecided', []).append('%s: %s' % (cls, x)); continue
        except RecursionError:
            nund += 1; continue
        ncls += 1; npaths += n
        st = 'same'
        for r in out:
            I = r['I']
            en = r['Encode']
            if en is None: continue            # output reports an error on this path
            known = set()
            for x in r['vst'].mem.values(): F.atoms_in(x, known)
            for x in r['V'].pos.values(): F.atoms_in(x, known)
            I.st = en.st
            for q in F.POS:
                s, w = F.verdict(I, r['V'].pos[q], en.pos[q], known)
                if s == 'differ' and isin and not (isinstance(w[1], int)): s = 'undecided'
                if s == 'undecided' and q == 'va' and not isin:
                    for c, x, sub, z in F.specialise(P, r, cls, 'Encode'):
                        I.st = z
                        got = I.load(F.ploc(q)); exp = sub(r['V'].pos[q])
                        kn = set()
                        for y in r['vst'].mem.values(): F.atoms_in(sub(y), kn)
                        s2, w = F.verdict(I, exp, got, kn)
                        if s2 == 'differ':
                            s = 'differ'; w = (((T.eq(x, c), True),) + tuple(w[0]), w[1]) if isinstance(w, tuple) and len(w) == 2 and isinstance(w[0], tuple) and (not w[0] or isinstance(w[0][0], tuple) and len(w[0][0]) == 2) else w
                            break
                    I.st = en.st
                if s == 'undecided': st = 'undecided' if st == 'same' else st; continue
                if s == 'differ':
                    st = 'differ'
                    tr = '; '.join(('' if p else 'not ') + show(c)[:70] for c, p in r['trace'][:8])
                    res.ob('%s.%s' % (cls, q), False, '%s.%s' % (cls, q),
                           '%s: %s after %s (%s) differs from after %s (%s): %s [path: %s]' % (cls, {'va': 'output position', 'hdr': 'header size', 'file': 'open file', 'endian': 'byte order'}[q],
                            P.fn[e]['name'], where(P, e), P.fn[v]['name'], where(P, v), explain(w if isinstance(w, tuple) and len(w) == 2 else None), tr[:500]))
        if isin: instr[cls] = st
        if st == 'same': res.ob('%s: %d paths, position after layout and output equal' % (cls, len(out)))
        elif st == 'undecided' and not isin:
            nund += 1; res.stats.setdefault('undecided', []).append(cls)
    res.need(ncls, 20, 'command classes')
    res.stats['paths'] = npaths; res.stats['undecided_classes'] = nund
    rows(P, E, res, instr)
    files(P, E, res)


# ------------------------------------------------------------ instructions
def total(ev, kind):
    """Sum of the sizes of a gated trace, as a term."""
    t = 0
    for e in ev:
        if e[0] == 'gate': t = T.add(t, T.ite(e[1], total(e[2], kind), total(e[3], kind)))
        elif e[0] == 'adv' and kind == 'adv': t = T.add(t, e[1])
        elif e[0] == 'word' and kind == 'word': t = T.add(t, e[1] // 8)
        elif e[0] == 'loop': return ('v', ('lv', 'loop'), None)
    return t


def rows(P, E, res, instr):
    import isa
    want = [ARCH[c] for c, s in instr.items() if c in ARCH and s != 'same']
    n = 0
    for arch in want:
        for a, v, m, row, shape, rec in isa.run_all(P, E, [arch], False):
            if rec is None: continue
            n += 1
            x, y = total(rec['adv'], 'adv'), total(rec['ev'], 'word')
            d = T.sub(x, y)
            if isinstance(d, int) and d != 0:
                res.ob('%s %s' % (v, m), False, '%s.%s' % (arch, m), '%s %s: layout reserves %s bytes, output writes %s' % (v, m, x, y))
        res.ob('%s: reserved and written size of every opcode row compared' % arch)
    res.stats['opcode_rows'] = n


# ------------------------------------------------------------ files
def files(P, E, res):
    """The file manager and the raw file: what each operation does to the position."""
    fm = 'FileManager'; cls = 'GenericAssemblerFile'
    if fm not in P.rec or cls not in P.rec: return
    n = 0
    LEN = ('v', 'LEN', (64, False)); X = ('v', 'X', (64, True))
    ops = [('advanceMemory', [LEN], 'va', LEN), ('write', [('v', 'DATA', None), LEN], 'va', LEN), ('writeU8', [('v', 'W', (8, False))], 'va', 1), ('writeU16', [('v', 'W', (16, False))], 'va', 2),
           ('writeU32', [('v', 'W', (32, False))], 'va', 4), ('writeU64', [('v', 'W', (64, False))], 'va', 8), ('seekVirtual', [X], '=va', X), ('seekPhysical', [X], '=pa', X)]
    for name, args, kind, amount in ops:
        fid = next((m['id'] for m in P.rec[fm]['methods'] if m['n'] == name and m['id'] in P.fn and len(P.fn[m['id']]['params']) == len(args)), None)
        if fid is None: continue
        todo = [[]]; bad = None; good = 0; und = 0
        while todo and len(todo) < 200:
            pre = todo.pop()
            I = plain(P, E, cls)
            I.choices = list(pre)
            va0 = ask(I, 'getVirtualAddress'); pa0 = ask(I, 'getPhysicalAddress')
            if I.st is not None:
                f = P.fn[fid]
                base = I.nchoice
                r = I.enter(fid, [(p, False, a) for p, a in zip(f['params'], args)], (('X', 'fmgr'), ()), None)
                if I.st is not None and I.assume(T.truth(r), True):
                    ev = I.st.ev
                    va, pa = ask(I, 'getVirtualAddress'), ask(I, 'getPhysicalAddress')
                    if I.st is not None:
                        if kind == 'va': exp = [(va, T.add(va0, amount), 'virtual address'), (T.sub(pa, pa0), T.sub(va, va0), 'physical address')]
                        elif kind == '=va': exp = [(va, amount, 'virtual address')]
                        else: exp = [(pa, amount, 'physical address')]
                        for e in ev:
                            if e[0] == 'seekp': exp.append((e[1], pa, 'stream position'))
                            if e[0] == 'swrite': exp.append((e[1], amount, 'bytes given to the stream'))
                        if name.startswith('write') and not any(e[0] == 'swrite' for e in ev): bad = 'nothing is written to the stream'
                        if name.startswith('write') and sum(1 for e in ev if e[0] == 'swrite') > 1: bad = 'written more than once'
                        for x, y, what in exp:
                            s, w = F.verdict(I, x, y, set())
                            if s == 'differ': bad = '%s becomes %s instead of %s' % (what, show(F.mod64(x))[:120], show(F.mod64(y))[:120])
                            elif s == 'same': good += 1
                            else: und += 1
            for k in range(len(pre), len(I.choices)): todo.append(I.choices[:k] + [not I.choices[k]])
        n += 1
        if bad: res.ob('%s::%s' % (fm, name), False, '%s::%s' % (fm, name), '%s::%s (%s): %s' % (fm, name, P.where(fid), bad))
        elif good: res.ob('%s::%s moves position and stream by what it is given' % (fm, name))
    res.stats['file_operations'] = n


def plain(P, E, cls):
    """Interpreter without the position model: the file classes themselves are interpreted."""
    hk = {k: h for k, h in F.HOOKS.items() if not k.startswith(('FileManager::', 'AssemblerFile::', 'GenericAssemblerFile::'))}
    I = F.Paths(P, E)
    I.hooks = {**hk, **F.hooks_for(P)}
    def seekp(I, n, w):
        a = n['args'][0]
        while a.get('k') in ('ctor', 'cast') and (a.get('args') or a.get('e')):
            b = a['args'][0] if a['k'] == 'ctor' else a['e']
            if a['k'] == 'cast' and I.aty(a.get('ty', '')) is not None: break
            a = b
        emit(I, 'seekp', I.rv(a)); return 0
    I.hooks['std::basic_ostream::seekp'] = seekp
    I.hooks['std::basic_ostream::write'] = lambda I, n, w: (emit(I, 'swrite', I.rv(n['args'][1])), 0)[1]
    for q in ('seekp', 'write'):
        for c in ('std::basic_ofstream', 'std::basic_fstream', 'fs::ofstream', 'std::ofstream'): I.hooks['%s::%s' % (c, q)] = I.hooks['std::basic_ostream::' + q]
    I.cmd = (('X', 'none'), ())
    I.dyn[('X', 'file')] = cls; I.dyn[('X', 'fmgr')] = 'FileManager'
    I.store((('X', 'fmgr'), ('activeFile',)), ('ptr', ('X', 'file'), ()))
    return I


def ask(I, name):
    P = I.P
    fid = next((m['id'] for m in P.rec['FileManager']['methods'] if m['n'] == name and m['id'] in P.fn), None)
    if fid is None or I.st is None: return 0
    return I.enter(fid, [], (('X', 'fmgr'), ()), None)
