"""C08: every layout change triggers another layout pass."""
import check as CK
from props import C06
import phases as F
import terms as T
from absint import Interp, show
from prog import tail
from machine import emit

RULE = """path-wise abstract interpretation of every layout function: on each path that can return "unchanged", everything a later pass reads again must be as the pass found it: label values (value, physical value, defined), the remembered members of the command that its own layout or reserved-area bookkeeping uses, and the reserved areas other commands look up; relocators must raise their change flag when a label they define moves; the pass loop is executed concretely over all sequences of pass results: output is reached only after a pass that returned "unchanged", and the bound ends in an error"""
ASSUMPTIONS = ['an error reported in the last pass ends the run (C02)', 'what a command puts into another command (literal pool addresses) is recomputed by every pass before it is used']
LEVEL = 'other'
DEBUG = 0
INSTR = ('CThumbInstruction', 'CArmInstruction', 'CMipsInstruction', 'CShInstruction')
CMD = ('X', 'cmd')


def truth(x): return x if T.is_bool(x) else T.truth(x)


def cmdatoms(t, out):
    """Initial values of members of the command that a term depends on."""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'v' and isinstance(t[1], tuple) and len(t[1]) > 2 and t[1][0] == 'in' and t[1][1] == CMD:
            out.add(t[1][2])
        for y in t: cmdatoms(y, out)


def events(ev):
    for e in ev:
        if e[0] == 'gate':
            yield from events(e[2]); yield from events(e[3])
        elif e[0] == 'loop':
            yield from events(e[1]['body'] or ())
        else: yield e


def final(r, path):
    return r['vst'].mem.get((CMD, path), None)


def summary(r, rel):
    pos = tuple(F.mod64(r['V'].pos[q]) if q in ('va', 'hdr') else r['V'].pos[q] for q in F.POS)
    ev = tuple(repr(e) for e in r['V'].ev if e[0] != 'ret')
    mem = tuple((p, repr(final(r, p))) for p in sorted(rel, key=str))
    oth = tuple(sorted((str(k), repr(v)) for k, v in r['vst'].mem.items() if k[0][0] == 'D'))
    return repr((pos, ev, mem, oth))


def mattering(out, rel):
    """Conditions whose outcome changes what the layout does (not just what it returns)."""
    cs = set()
    def go(rs, i):
        """The set of behaviours below a node of the decision tree."""
        if not rs: return frozenset()
        live = [r for r in rs if i < len(r['trace'])]
        if not live: return frozenset(((), summary(r, rel)) for r in rs)
        c = live[0]['trace'][i][0]
        a = [r for r in live if r['trace'][i][0] == c and r['trace'][i][1]]
        b = [r for r in live if r['trace'][i][0] == c and not r['trace'][i][1]]
        rest = [r for r in rs if r not in a and r not in b]
        A, B = go(a, i + 1), go(b, i + 1)
        C = frozenset(((), summary(r, rel)) for r in rest)
        if not A or not B or A == B: return A | B | C
        cs.add(c)
        return frozenset([((c, True),) + (x,) for x in A] + [((c, False),) + (x,) for x in B]) | C
    go(out, 0)
    return cs


def relevant(out):
    """Members a path reads, per path: [{member}]."""
    rels = [set() for _ in out]
    alls = set()
    for _ in range(4):
        cs = mattering(out, alls)
        for r, rel in zip(out, rels):
            for q in F.POS: cmdatoms(r['V'].pos[q], rel)
            for e in events(r['V'].ev):
                if e[0] in ('registry', 'child', 'set', 'seekp', 'swrite'): cmdatoms(e[1:], rel)
            for p in list(rel):
                v = final(r, p)
                if v is not None: cmdatoms(v, rel)
            for k, v in r['vst'].mem.items():
                if k[0][0] == 'D': cmdatoms(v, rel)
            for c, p in r['trace']:
                if c in cs: cmdatoms(c, rel)
        new = set().union(*rels) if rels else set()
        if new == alls: break
        alls = new
    return rels


def static(r, changing):
    return {(c, p) for c, p in r['trace'] if fixed(c, changing)}


def readers(out, rels, r, path, changing):
    """Some path the next pass can take reads that member."""
    s = static(r, changing)
    for r2, rel in zip(out, rels):
        if path not in rel: continue
        if any((c, not p) in s for c, p in static(r2, changing)): continue
        return True
    return False


def trace(r):
    return '; '.join(('' if p else 'not ') + show(c)[:70] for c, p in r['trace'][:8])


def unchanged(I, r):
    """Continue on the part of a path where layout returns "unchanged"."""
    I.st = r['vst'].copy()
    c = truth(r['ret'])
    if isinstance(c, int): return not c
    return I.assume(c, False)


def same(I, a, b):
    if a == b: return 'same'
    s, w = F.verdict(I, a, b, set())
    return s


def persistent(P, E):
    """Registry operations that record an area for later passes."""
    out = set()
    for fid, x in P.fn.items():
        if not x['name'].startswith('Allocations::') or x.get('body') is None or len(x['params']) < 4 or x['rt'] != 'void': continue
        out.add(tail(x['name']))
    return out


def check(P, res, tier):
    E = CK.effects()
    ncls = npaths = 0
    und = []
    pers = persistent(P, E)
    for cls in F.commands(P):
        I0 = F.Paths(P, E)
        v = F.phase_of(P, I0, cls, 'Validate')
        if v is None: continue
        isin = cls in INSTR or (cls.endswith('Instruction') and not P.rec[cls].get('abstract'))
        try: out, kills, n = F.enum(P, E, cls, [], assume_quiet=False, join=isin)
        except (F.Undecided, RecursionError) as x: und.append('%s: %s' % (cls, x)); continue
        ncls += 1; npaths += len(out)
        one(P, E, res, cls, v, out, relevant(out), und, pers)
        own = C06.owned(P, cls)
        if own: C06.layout(P, E, OnlyFlags(res), cls, own, v, und)
    res.need(ncls, 20, 'command classes')
    res.stats['paths'] = npaths
    relocators(P, E, res, und)
    passes(P, E, res)
    if und: res.stats['undecided'] = sorted(set(und))[:30]


def loc_name(k):
    root, p = k
    return '.'.join(str(x) if not isinstance(x, tuple) else '[]' for x in p)


def is_command(P, root):
    return 'iter' in repr(root)


class OnlyFlags:
    def __init__(s, res): s.res = res
    def ob(s, what, ok=True, key=None, msg=None):
        if not ok and key and key.endswith('.flag'): s.res.ob(what, ok, key, msg)


def one(P, E, res, cls, v, out, rels, und, pers):
    fn = P.fn[v]['name'] + ' (' + P.where(v) + ')'
    changing = {k[1] for r in out for k, x in r['vst'].mem.items() if k[0] == CMD}
    bad = set()
    for r in out:
        I = r['I']
        if not unchanged(I, r): continue
        st = I.st
        for k, x in list(st.mem.items()):
            root, path = k
            if root == CMD:
                if not readers(out, rels, r, path, changing): continue
            elif root[0] == 'D':
                if is_command(P, root): continue
            else: continue
            ini = ('v', ('in', root, path), I.loc_type(k))
            old = next((a for a in initial(r, k)), ini)
            I.st = st.copy()
            s = same(I, x, old)
            if s == 'same': continue
            if s == 'undecided' or F.lossy(x) or F.lossy(r['ret']): und.append('%s.%s' % (cls, loc_name(k))); continue
            if (loc_name(k)) in bad: continue
            bad.add(loc_name(k))
            res.ob('%s.%s' % (cls, loc_name(k)), False, '%s.%s' % (cls, loc_name(k)), '%s can change %s (to %s) and return "unchanged", though the next pass reads it [path: %s]' % (fn, loc_name(k), show(x)[:100], trace(r)))
        # what is put where other commands look it up
        for e in events(r['V'].ev):
            if e[0] != 'registry' or e[1] not in pers: continue
            for i, a in enumerate(e[2]):
                I.st = st.copy()
                if fixed(a, changing): continue
                hit = False
                for p in changing:
                    fin = final(r, p)
                    ini = ('v', ('in', CMD, p), I.loc_type((CMD, p)))
                    if fin is None: continue
                    if same(I, fin, a) == 'same' and same(I, ini, a) == 'same': hit = True; break
                if hit: continue
                if F.lossy(a) or F.lossy(r['ret']): und.append('%s: %s' % (cls, e[1])); continue
                key = '%s %d' % (e[1], i)
                if key in bad: continue
                bad.add(key)
                res.ob('%s.%s' % (cls, key), False, '%s.%s.%d' % (cls, e[1], i), '%s: argument %d of %s (%s) can differ from the previous pass although layout returns "unchanged" [path: %s]' % (fn, i + 1, e[1], show(a)[:100], trace(r)))
        # relocated objects
        for e in events(r['V'].ev):
            if e[0] == 'ret' and isinstance(e[1], tuple) and e[1] and e[1][0] in ('rel', 'v', 'in') or e[0] == 'ret':
                if contained_in_loop(r['V'].ev, e): continue
                I.st = st.copy()
                if I.decide(e[2]) is False: continue
                if F.lossy(r['ret']): und.append('%s: returned value' % cls); continue
                key = 'flag ' + show(e[1])[:60]
                if key in bad: continue
                bad.add(key)
                res.ob('%s.flag' % cls, False, '%s.flag' % cls, '%s: %s reports a change but layout can still return "unchanged" [path: %s]' % (fn, show(e[1])[:80], trace(r)))
        rl = [k for k in r['vst'].mem if k[0] == ('X', 'reloc') and k[1]]
        asked = [e for e in events(r['V'].ev) if e[0] == 'ret' and isinstance(e[1], tuple) and e[1][0] == 'rel']
        if rl and not asked and 'reloc' not in bad:
            bad.add('reloc')
            res.ob('%s.reloc' % cls, False, '%s.reloc' % cls, '%s can return "unchanged" without asking the relocator whether data or labels changed [path: %s]' % (fn, trace(r)))
    if not bad: res.ob('%s: %d paths; unchanged result leaves %s as found' % (cls, len(out), ', '.join(sorted('.'.join(str(y) for y in p) for p in set().union(*rels) & changing)) or 'nothing it reads again'))


def initial(r, k):
    """Typed initial atom of a location, as it occurs in the path."""
    found = set()
    def go(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == 'v' and isinstance(t[1], tuple) and t[1][:1] == ('in',) and t[1][1:] == (k[0], k[1]): found.add(t)
            for y in t: go(y)
    for c, p in r['trace']: go(c)
    go(r['ret']) if isinstance(r['ret'], tuple) else None
    for x in r['vst'].mem.values(): go(x)
    return sorted(found, key=repr)


def contained_in_loop(ev, e):
    for x in ev:
        if x[0] == 'loop' and any(y is e for y in events((x,))): return True
        if x[0] == 'gate' and (contained_in_loop(x[2], e) or contained_in_loop(x[3], e)): return True
    return False


def fixed(a, changing):
    """A term over members no layout changes."""
    if isinstance(a, int): return True
    ok = True
    def go(t):
        nonlocal ok
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == 'v' and isinstance(t[1], tuple):
                k = t[1]
                if k[0] == 'in' and k[1] == CMD and not any(k[2][:len(p)] == p for p in changing): return
                ok = False; return
            for y in t: go(y)
    go(a)
    return ok


# ------------------------------------------------------------ objects that define labels
def relocators(P, E, res, und):
    """Classes other than commands whose methods, run in layout, give labels their value."""
    cmds = set(F.commands(P)) | {F.root_class(P)}
    setv = {i for i, f in P.fn.items() if f['name'] == 'Label::setValue'}
    I0 = F.Paths(P, E)
    roots = [v for v in (F.phase_of(P, I0, c, 'Validate') for c in F.commands(P)) if v]
    live = P.reach(roots)
    users = {}
    for fid in live:
        f = P.fn.get(fid)
        if f is None or f.get('ctor'): continue
        for n, ts in P.calls(fid):
            if setv & set(ts):
                c = f.get('cls') or f['name'].split('(')[0].rsplit('::', 1)[0]
                while c and c not in P.rec: c = c.rsplit('::', 1)[0] if '::' in c else None
                if c and c not in cmds: users.setdefault(c, set()).add(fid)
    n = 0
    for cls in sorted(users):
        entries = set(); flags = set()
        for v in roots:
            for c, ts in P.calls(v):
                for t in ts:
                    f = P.fn.get(t)
                    if f is None or c.get('cls') != cls and f.get('cls') != cls: continue
                    if P.reach([t]) & users[cls]: entries.add(t)
                    elif not f['params'] and P.ty(f['rt']).get('bool'): flags.add(t)
        for en in sorted(entries):
            if not flags:
                res.ob('%s' % cls, False, '%s.flag' % cls, '%s (%s) changes label values in layout but nothing asks it whether they changed' % (P.fn[en]['name'], P.where(en))); continue
            n += relocator(P, E, res, und, cls, en, sorted(flags))
    res.stats['label_definitions_outside_commands'] = n


def relocator(P, E, res, und, cls, en, flags):
    hk = F.hooks_for(P)
    vty = next((f['ty'] for f in P.rec.get('Label', {}).get('fields', ()) if f['n'] == 'value'), None)
    def seth(I, n, want):
        l = I.obj_loc(n)
        if I.st is None: return 0
        at = (l[0], l[1] + ('value',))
        old = I.load(at, vty); v = I.rv(n['args'][0])
        if I.st is None: return 0
        if isinstance(old, tuple) and old[0] == 'v' and old[2] is None and vty: old = ('v', old[1], I.aty(vty))
        emit(I, 'set', l, old, v, n.get('l'))
        I.store(at, v)
        return 0
    for fid, f in P.fn.items():
        if f['name'] == 'Label::setValue': hk[fid] = seth
    def fresh():
        I = F.Paths(P, E, hk); I.quiet = 1
        F.start(I, cls)
        for q in list(I.hooks):
            if isinstance(q, str) and q.startswith(cls + '::'): I.hooks.pop(q)
        return I
    I = fresh()
    fl = F.run_fn(I, flags[0], 'Validate')
    if not (isinstance(fl, tuple) and fl[0] == 'v' and isinstance(fl[1], tuple) and fl[1][0] == 'in' and fl[1][1] == CMD): und.append('%s: flag' % cls); return 0
    floc = (CMD, fl[1][2])
    I = fresh()
    try: F.run_fn(I, en, 'Validate')
    except RecursionError: und.append(cls); return 0
    if I.st is None: und.append(cls); return 0
    end = I.st
    count = 0
    fin = truth(end.mem.get(floc, fl))
    def lost(t, a):
        """Setting that part of the flag does not set the flag."""
        if not isinstance(t, tuple): return not t
        x = T.subst(t, lambda y: 1 if y == a else None)
        return not (isinstance(x, int) and x)
    def walk(ev, guards, chain):
        nonlocal count
        for e in ev:
            if e[0] == 'gate':
                walk(e[2], guards + [(e[1], True)], chain); walk(e[3], guards + [(e[1], False)], chain)
            elif e[0] == 'loop':
                L = e[1]
                walk(L['body'] or (), guards if not mentions(L['body'] or ()) else guards, chain + [L])
            elif e[0] == 'set':
                count += 1
                verdict(e, guards, chain)
    def verdict(e, guards, chain):
        where = '%s:%s' % (P.fn[en]['file'], e[4])
        inner = [L for L in chain if floc in L['end']]
        level = truth(inner[-1]['end'][floc]) if inner else fin
        old, new = e[2], e[3]
        base = end.copy(); base.facts = {}; base.rng = {}; base.ne = {}
        def settle(t, c, p):
            return T.subst(t, lambda x: (x[2] if p else x[3]) if x[0] == 'ite' and x[1] == c else None) if isinstance(t, tuple) else t
        for c, p in guards: level, old, new = settle(level, c, p), settle(old, c, p), settle(new, c, p)
        I.st = base
        for c, p in guards:
            if I.st is None or not I.assume(c, p): return
        todo = [(I.st, level, old, new, 0)]
        while todo:
            st, lv, o, nw, d = todo.pop()
            I.st = st
            c = firstcond(lv) or F.firstite(nw) or F.firstite(o)
            if c is not None and d < 8:
                for p in (True, False):
                    I.st = st.copy()
                    if not I.assume(c, p): continue
                    todo.append((I.st, settle(lv, c, p), settle(o, c, p), settle(nw, c, p), d + 1))
                continue
            lv = truth(lv)
            if isinstance(lv, int):
                if lv: continue
            elif not I.assume(lv, False): continue
            if same(I, o, nw) == 'same' or remembered(I, nw, o): continue
            if F.lossy(lv) and not inner: und.append('%s: %s' % (cls, where)); return
            if DEBUG: print('LV', lv, '\nOLD', o, '\nNEW', nw)
            res.ob('%s label' % cls, False, '%s.label' % cls, '%s (%s): a label gets a new value without the change flag being set (flag at the end of the step: %s)' % (P.fn[en]['name'], where, show(lv)[:160])); return
        # the flag of the step survives to the end
        for k, L in enumerate(reversed(inner)):
            outer = inner[:-1 - k]
            up = truth(outer[-1]['end'][floc]) if outer else fin
            exits = anyatoms(up, L['id']) or [L['head'][floc]]
            if all(lost(up, a) for a in exits):
                if isinstance(up, tuple) and F.lossy(up) and any(F.has(up, lambda t: t == a) for a in exits): und.append('%s: %s' % (cls, where)); return
                res.ob('%s label' % cls, False, '%s.lost' % cls, '%s (%s): the change of a label is noted but lost again before the end' % (P.fn[en]['name'], where)); return
        res.ob('%s: label value set at line %s is reported when it changes' % (cls, e[4]))
    walk(end.ev, [], [])
    return count


def firstcond(t):
    """Condition of a gate anywhere in a boolean term."""
    if not isinstance(t, tuple): return None
    if t[0] == 'ite': return t[1]
    if t[0] in ('or', 'and'): return firstcond(t[1]) or firstcond(t[2])
    if t[0] == 'not': return firstcond(t[1])
    if t[0] in ('eq0', 'le0'): return F.firstite(t[1])
    return None


def mentions(ev): return any(e[0] == 'set' for e in events(ev))


def depends(c, L): return F.has(c, lambda t: t == ('v', ('iter', L['id']), (64, False)))


def anyatoms(t, lid):
    out = []
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'v' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'any' and lid in x[1]: out.append(x)
            for y in x: go(y)
    go(t)
    return out


def remembered(I, new, old):
    """The new value equals what a member of the object held before."""
    for f, v in list(I.st.facts.items()):
        if not v or f[0] != 'eq0': continue
        at = set()
        F.atoms_in(f, at)
        for a in at:
            if isinstance(a[1], tuple) and a[1][0] in ('fld', 'in') and isinstance(a[1][-1], tuple) and a[1][-1] and isinstance(a[1][-1][-1], str) and a != old and same(I, a, new) == 'same': return True
    return False


# ------------------------------------------------------------ the pass loop
class Loop(F.Paths):
    """The driver of the passes, run concretely: each pass returns what the path says."""
    LIMIT = 1200

    def setup(s, relevant_fns):
        s.relfns = relevant_fns; s.npass = 0; s.last = None; s.outs = []; s.bad = None; s.lastno = None

    def may_inline(s, fid): return (fid in s.relfns or s.P.fn[fid].get('ctor') and s.P.fn[fid].get('implicit')) and super().may_inline(fid)

    def call(s, n, want_lv=False):
        fn = n.get('fn')
        if fn in s.phasefns and n.get('obj') is not None:
            ph = s.phasefns[fn]
            if ph not in F.PHASES: return 0
            if ph != 'Validate':
                s.output(n, ph); return 0
            no = None
            if n['args']:
                l = s.lv(n['args'][0])
                if s.st is None: return 0
                no = s.load((l[0], l[1] + ('passes',)), 'int')
            s.npass += 1
            if isinstance(no, int) and isinstance(s.lastno, int) and no <= s.lastno and not s.bad: s.bad = ('counter', n.get('l'), 'the number of the pass given to layout does not grow (%s after %s)' % (no, s.lastno))
            s.lastno = no
            if s.bad: s.kill('bad'); return 0
            if s.npass > s.LIMIT:
                s.bad = s.bad or ('bound', n.get('l'), 'more than %d passes run when no pass returns "unchanged"' % s.LIMIT); s.kill('bound'); return 0
            s.last = ('v', ('pass', s.npass), 'b')
            return s.last
        return super().call(n, want_lv)

    def split(s, c):
        if F.has(c, lambda t: len(t) == 3 and t[0] == 'v' and isinstance(t[1], tuple) and t[1][0] == 'pass'): return super().split(c)
        return Interp.split(s, c)

    def output(s, n, ph):
        e = s.load(F.ploc('err'))
        r = s.decide(T.truth(s.last)) if s.last is not None else None
        if s.last is None: s.bad = s.bad or ('out', n.get('l'), '%s is reached without a layout pass' % ph)
        elif e == 1: s.bad = s.bad or ('err', n.get('l'), '%s is reached although an error was reported' % ph)
        elif r is not False: s.bad = s.bad or ('out', n.get('l'), '%s is reached although the last of %d passes returned "changed"' % (ph, s.npass))
        s.outs.append((ph, s.npass))
        s.kill('output')

    def loop(s, st):
        if s.quiet: return super().loop(st)
        from absint import Loop as LP
        lp = LP(); s.frames[-1].loops.append(lp)
        first = st['k'] == 'do'
        n = 0
        while s.st is not None:
            if not first and st.get('c') is not None:
                if 'var' in st: s.declare(st['var'])
                c = s.cond(st['c'])
                if s.st is None: break
                A, B = s.split(c)
                if A is None: s.st = B; break
                s.st = A
            first = False
            n += 1
            if n > s.LIMIT + 10: s.bad = s.bad or ('bound', st['l'], 'the loop at line %d does not end' % st['l']); s.kill('bound'); break
            s.run(st['b'])
            if lp.conts:
                s.st = s.joinmany([(x, None) for x in lp.conts] + [(s.st, None)])[0]; lp.conts = []
            if s.st is not None and st.get('inc') is not None: s.rv(st['inc'])
        s.frames[-1].loops.pop()
        s.st = s.joinmany([(s.st, None)] + [(b, None) for b in lp.breaks])[0]


def passes(P, E, res):
    I0 = F.Paths(P, E)
    names = {f: ph for f, ph in I0.phasefns.items() if ph in F.PHASES}
    direct = {}
    for fid, f in P.fn.items():
        for n, ts in P.calls(fid):
            if n.get('fn') in names: direct.setdefault(fid, set()).add(names[n['fn']])
    memo = {}
    def phs(fid):
        if fid not in memo: memo[fid] = set().union(*[direct.get(x, set()) for x in P.reach([fid])] or [set()])
        return memo[fid]
    cmds = set(F.commands(P)) | {F.root_class(P)}
    up = set(direct)
    while True:
        more = {c for c in P.fn if c not in up and any(t in up for n, ts in P.calls(c) for t in ts)}
        if not more: break
        up |= more
    drivers = [fid for fid in up if P.fn[fid].get('cls') not in cmds and 'Validate' in phs(fid) and 'Encode' in phs(fid)]
    # the innermost functions that run both phases
    drivers = [d for d in drivers if not any(x != d and x in P.reach([d]) for x in drivers) and 'lambda' not in P.fn[d]['name']]
    if not drivers: res.need(0, 1, 'functions that run the passes'); return
    err = lambda sev: None
    def h_err(I, n, want):
        sev = I.rv(n['args'][0])
        if I.st is not None and sev in F.ERRORS: I.store(F.ploc('err'), 1)
        return 0
    def h_clear(I, n, want):
        I.store(F.ploc('err'), ('v', ('in', ('X', 'pos'), ('err0',)), 'b')); return 0
    def h_has(I, n, want):
        e = I.load(F.ploc('err'))
        return 1 if e == 1 else ('v', I.fresh('haserror', I.npass), 'b')
    for d in drivers:
        rel = {x for x in P.reach([d]) if x in up}
        todo = [[]]; n = 0; outs = 0; longest = 0; seen = set()
        while todo and n < 1500:
            pre = todo.pop(); n += 1
            hk = {'Logger::queueError': h_err, 'Logger::printError': h_err, 'Logger::clearQueue': h_clear, 'Logger::hasError': h_has, 'Logger::printQueue': F.h_nothing}
            I = Loop(P, E, hk)
            I.unroll = 1 << 20
            I.setup(rel)
            I.choices = list(pre)
            F.start(I, '')
            I.store(F.ploc('err'), ('v', ('in', ('X', 'pos'), ('err0',)), 'b'))
            f = P.fn[d]
            args = []
            for i, p in enumerate(f['params']):
                if P.ty(p['ty']).get('ref'): args.append((p, True, ('ptr', ('X', 'arg%d' % i), ())))
                else: args.append((p, False, ('v', ('arg', i), I.aty(p['ty']))))
            try: I.enter(d, args, None, None)
            except RecursionError: break
            longest = max(longest, I.npass); outs += len(I.outs)
            if I.bad and I.bad[0] not in seen:
                seen.add(I.bad[0])
                res.ob('passes', False, 'passes.%s' % I.bad[0], '%s (%s:%s): %s' % (f['name'], f['file'], I.bad[1], I.bad[2]))
            if I.bad and I.bad[0] in ('bound', 'counter'): break
            for k in range(len(pre), len(I.choices)): todo.append(I.choices[:k] + [not I.choices[k]])
        res.ob('%s: output only after a pass that returned "unchanged" on %d paths, at most %d passes' % (f['name'], n, longest))
        if not seen: res.need(outs, 1, 'paths that reach output')
        res.stats['pass_loop'] = {'function': f['name'], 'paths': n, 'most_passes': longest}
