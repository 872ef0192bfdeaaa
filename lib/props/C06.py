"""C06: nested blocks take part in every phase, in source order."""
import check as CK
import phases as F
import terms as T
from absint import show

RULE = """path-wise abstract interpretation of every command class that owns commands: on every path of layout (without error), followed by each output phase from the state layout left, the sequence of contained commands reached must be the same in every phase (same elements, same order, same condition); layout must reach every owned command unless it is absent or an alternative to the one reached; and a change reported by a contained command must be in the value layout returns"""
ASSUMPTIONS = ['commands do not change each other except through the shared layout state', 'the text of a MIPS macro holds only generated labels, which have no symbol output']
LEVEL = 'other'
EXEMPT = {('MipsMacroCommand', 'writeSymData')}


def seq(I, ev, ren=None):
    """Contained commands reached, in canonical form."""
    ren = ren or {}
    out = []
    for e in ev:
        if e[0] == 'child': out.append(('c', F.canon(e[1], ren)))
        elif e[0] == 'callback': out.append(('loop?', e[1]))
        elif e[0] == 'gate':
            a, b = seq(I, e[2], ren), seq(I, e[3], ren)
            if a or b: out.append(('gate', F.canon(e[1], ren), a, b) if a != b else ('same', a))
        elif e[0] == 'loop':
            L = e[1]
            if not mentions(L): continue
            tr = F.trip(I, L.d)
            if tr is None: out.append(('loop?', L['id'])); continue
            N, ia, s0, step = tr
            depth = 'k%d' % len(ren)
            K = ('v', ('#', depth), (64, False))
            r2 = dict(ren); r2[('v', ('iter', L['id']), (64, False))] = K
            if ia is not None: r2[ia] = T.add(s0, K) if step == 1 else T.sub(s0, K)
            body = seq(I, L['body'] or (), r2)
            out.append(('loop', F.canon(F.mod64(N), ren), F.canon(F.mod64(s0), ren) if step != 1 else 0, body, bool(L['nbreaks'] or L['left'])))
    return tuple(out)


def mentions(L):
    def go(ev):
        for e in ev:
            if e[0] in ('child', 'callback'): return True
            if e[0] == 'gate' and (go(e[2]) or go(e[3])): return True
            if e[0] == 'loop' and mentions(e[1]): return True
        return False
    return go(L['body'] or ()) or any(go(b) for b in L['breaks']) or any(go(x) for x, v in L['left'])


def undecided(s):
    return any(x[0] == 'loop?' or (x[0] == 'loop' and (undecided(x[3]))) or x[0] == 'gate' and (undecided(x[2]) or undecided(x[3])) for x in s)


def rets(ev, ren):
    for e in ev:
        if e[0] == 'ret': yield e[1], e[2], ren
        elif e[0] == 'gate':
            yield from rets(e[2], ren); yield from rets(e[3], ren)
        elif e[0] == 'loop': yield from rets(e[1]['body'] or (), ren + [e[1]])


def owned(P, cls):
    """Members that own commands: [(name, is a sequence)]."""
    out = []
    cmds = set(F.commands(P)) | {F.root_class(P)}
    todo = [cls]
    while todo:
        c = todo.pop()
        for f in P.rec.get(c, {}).get('fields', ()):
            t = P.ty(f['ty'])
            rec = t.get('rec') or ''
            targs = t.get('targs') or []
            if rec in ('std::unique_ptr', 'std::shared_ptr') and targs and P.ty(targs[0]).get('rec') in cmds: out.append((f['n'], False))
            elif targs and rec.startswith('std::'):
                u = P.ty(targs[0])
                if u.get('rec') in ('std::unique_ptr', 'std::shared_ptr') and u.get('targs') and P.ty(u['targs'][0]).get('rec') in cmds: out.append((f['n'], True))
        todo += P.rec.get(c, {}).get('bases', [])
    return out


def names(s):
    return ' '.join(name(x) for x in s) or 'nothing'


def name(x):
    if x[0] == 'c': return show(x[1]).replace('cmd.', '')
    if x[0] == 'loop': return 'each(%s%s)' % (names(x[3]), ', may stop early' if x[4] else '')
    if x[0] == 'gate': return '(%s ? %s : %s)' % (show(x[1])[:80], names(x[2]), names(x[3]))
    if x[0] == 'same': return names(x[1])
    return str(x[0])


def flat(s):
    out = []
    for x in s:
        if x[0] == 'same': out += flat(x[1])
        elif x[0] == 'loop': out.append(('loop', x[1], x[2], tuple(flat(x[3])), x[4]))
        else: out.append(x)
    return out


def check(P, res, tier):
    E = CK.effects()
    ncont = npaths = 0
    und = []
    for cls in F.commands(P):
        own = owned(P, cls)
        if not own: continue
        I0 = F.Paths(P, E)
        v = F.phase_of(P, I0, cls, 'Validate')
        if v is None: continue
        ncont += 1
        okcls = True
        for ph in ('Encode', 'writeTempData', 'writeSymData'):
            if (cls, ph) in EXEMPT: continue
            f = F.phase_of(P, I0, cls, ph)
            try: out, kills, n = F.enum(P, E, cls, [ph])
            except (F.Undecided, RecursionError) as x:
                und.append('%s.%s: %s' % (cls, ph, x)); okcls = False; continue
            npaths += n
            bad = None
            for r in out:
                I = r['I']
                if r[ph] is None: continue
                I.st = r[ph].st
                a, b = flat(seq(I, r['V'].ev)), flat(seq(I, r[ph].ev))
                if a == b: continue
                if undecided(tuple(a)) or undecided(tuple(b)): und.append('%s.%s' % (cls, ph)); continue
                bad = (a, b, r)
            what = '%s: layout and %s' % (cls, ph)
            if bad:
                a, b, r = bad
                res.ob(what, False, '%s.%s' % (cls, ph), '%s: %s reaches [%s] where layout (%s) reached [%s] [path: %s]' % (cls, P.fn[f]['name'] + ' (' + P.where(f) + ')' if f else ph, names(b), P.where(v), names(a),
                       '; '.join(('' if p else 'not ') + show(c)[:60] for c, p in r['trace'][:6])))
            else: res.ob(what + ' reach the same contained commands on all %d paths' % len(out))
        layout(P, E, res, cls, own, v, und)
    res.need(ncont, 5, 'container classes')
    res.stats['paths'] = npaths
    if und: res.stats['undecided'] = sorted(set(und))[:20]


def layout(P, E, res, cls, own, v, und):
    try: out, kills, n = F.enum(P, E, cls, [])
    except (F.Undecided, RecursionError) as x: und.append('%s: %s' % (cls, x)); return
    reached = []
    for r in out:
        I = r['I']
        I.st = r['vst'].copy()
        s = flat(seq(I, r['V'].ev))
        hit = set(); early = False
        for nm, many in own:
            loc = (('X', 'cmd'), (nm,))
            if not many:
                k = ('v', ('in', ('X', 'cmd'), (nm,)), None)
                if mention(s, k): hit.add(nm)
                elif I.decide(T.eq(k, 0)) is True: hit.add(nm + '?')
            else:
                n0 = F.mod64(I.size_of(('v', ('in', ('X', 'cmd'), (nm,)), None)))
                for x in s:
                    if x[0] == 'loop' and x[2] == 0 and any(y[0] == 'c' and elem(y[1], nm) for y in x[3]):
                        if x[1] == n0: hit.add(nm)
                        if x[4]: early = True
                if undecided(tuple(s)): hit.add(nm + '?')
        reached.append((r, hit, early))
        # reported changes
        for k, a, loops in rets(r['V'].ev, []):
            I.st = r['vst'].copy()
            if not loops:
                if I.decide(a) is False: continue
                if F.lossy(r['ret']): und.append('%s: returned value' % cls); continue
                res.ob('%s: change reported by %s' % (cls, show(k)), False, '%s.flag' % cls, '%s (%s): %s reports a change but layout can still return "unchanged" (returned value: %s) [path: %s]' % (
                    P.fn[v]['name'], P.where(v), show(k)[:80], show(r['ret'])[:120], '; '.join(('' if p else 'not ') + show(c)[:60] for c, p in r['trace'][:6])))
            else:
                if any(T_any(f, a, loops) for f, val in I.st.facts.items() if not val): continue
                if any(L['nbreaks'] or L['left'] for L in loops) and all(val == 1 for L in loops for x, val in L['left']) and not any(L['nbreaks'] for L in loops): continue
                x = r['ret']
                lost = overwritten(I, loops[-1], x, a) if len(loops) == 1 else None
                if lost:
                    res.ob('%s: change reported in a loop' % cls, False, '%s.flag' % cls, '%s (%s): a change reported by a contained command %s' % (P.fn[v]['name'], P.where(v), lost)); continue
                if F.lossy(x, {y for y in F.lossy(x) if y[1][0] == 'any'}): und.append('%s: returned value' % cls); continue
                res.ob('%s: change reported in a loop' % cls, False, '%s.flag' % cls, '%s (%s): a contained command reports a change but layout can still return "unchanged" (returned value: %s)' % (P.fn[v]['name'], P.where(v), show(x)[:160]))
    ones = [nm for nm, many in own]
    choose = {nm for nm in ones if any(nm not in h and nm + '?' not in h for r, h, e in reached)}
    for r, h, e in reached:
        miss = [nm for nm in ones if nm not in h and nm + '?' not in h]
        got = [nm for nm in ones if nm in h]
        if e:
            if not (all_left(r)): res.ob('%s: every contained command' % cls, False, '%s.early' % cls, '%s (%s): the loop over the contained commands can end before the last one' % (P.fn[v]['name'], P.where(v)))
        for nm in miss:
            alt = [g for g in got if any(nm in h2 and g not in h2 for r2, h2, e2 in reached)]
            if alt: continue
            # nothing reached: allowed only when the alternative is absent
            absent = [g for g in ones if g != nm and g + '?' in h and any(g in h2 and nm not in h2 for r2, h2, e2 in reached)]
            if absent: continue
            res.ob('%s.%s' % (cls, nm), False, '%s.%s' % (cls, nm), '%s (%s): layout can leave out the contained command "%s" [path: %s]' % (P.fn[v]['name'], P.where(v), nm, '; '.join(('' if p else 'not ') + show(c)[:60] for c, p in r['trace'][:6])))
    res.ob('%s: layout reaches every owned command (%s) and passes on their changes' % (cls, ', '.join(ones)))
    polarity(P, res, cls, reached, v)


def all_left(r):
    """Early ends of the loops all return "changed"."""
    for e in r['V'].ev:
        if e[0] == 'loop' and (e[1]['nbreaks'] or any(v != 1 for x, v in e[1]['left'])): return False
    return True


def T_any(f, a, loops):
    if not (f[0] == 'v' and isinstance(f[1], tuple) and f[1][0] == 'any'): return False
    ren = {}
    for L in loops:
        ren[('v', ('iter', L['id']), (64, False))] = ('v', ('#', 'k'), (64, False))
    # an index variable
    def norm(t):
        s = repr(F.canon(t, ren))
        return s
    want = None
    parts = disj(f[1][1])
    for L in loops:
        tr = F.trip(None_I, L.d)
        if tr and tr[1] is not None: ren[tr[1]] = T.add(tr[2], ('v', ('#', 'k'), (64, False))) if tr[3] == 1 else T.sub(tr[2], ('v', ('#', 'k'), (64, False)))
    want = F.canon(a, ren)
    return any(p == want for p in parts)


def overwritten(I, L, x, a):
    """The returned value is the variable of a loop: does it keep a reported change?"""
    x = x[1] if isinstance(x, tuple) and x[0] == 'not' and isinstance(x[1], tuple) and x[1][0] == 'eq0' else x
    k = next((k for k, h in L['head'].items() if h == x), None)
    if k is None or k not in L['end']: return None
    e = L['end'][k]
    e = e if T.is_bool(e) or isinstance(e, int) else T.truth(e)
    for t, what in ((a, 'is not kept in the returned value'), (x, 'is overwritten by the next contained command')):
        v = T.subst(e, lambda y: 1 if y == t else None) if isinstance(e, tuple) else e
        if isinstance(v, int) and v: continue
        if isinstance(v, tuple) and (v[0] not in ('v', 'not') or F.lossy(v)): continue
        return what
    return None


class _N:
    st = None
    def size_of(s, v): return ('v', ('app', 'size', v, ()), (64, False))


None_I = _N()


def disj(x):
    if isinstance(x, tuple) and x[0] == 'or': return disj(x[1]) + disj(x[2])
    return [x]


def mention(s, k):
    for x in s:
        if x[0] == 'c' and x[1] == k: return True
        if x[0] == 'gate' and (mention(x[2], k) and mention(x[3], k)): return True
    return False


def elem(k, nm):
    """The child is an element of that member."""
    if isinstance(k, tuple):
        if len(k) > 2 and k[0] == 'in' and k[1] == ('X', 'cmd') and k[2] and k[2][0] == nm: return True
        return any(elem(x, nm) for x in k)
    return False


def polarity(P, res, cls, reached, v):
    """A conditional outputs its first block exactly when its condition holds."""
    en = next((q for q in P.enums if q.endswith('ConditionType')), None)
    own = None
    for f in P.rec[cls]['fields']:
        if en and P.ty(f['ty']).get('enum') == en: own = f['n']
    if own is None: return
    vals = {e['n']: e['v'] for e in P.enums[en]['e']}
    blocks = [nm for nm, many in owned(P, cls)]
    if not {'IF', 'IFDEF', 'IFNDEF'} <= set(vals) or len(blocks) != 2 or not {'ifBlock', 'elseBlock'} <= set(blocks): return
    n = 0
    for r, h, e in reached:
        I = r['I']; I.st = r['vst'].copy()
        ty = I.fix(('v', ('in', ('X', 'cmd'), (own,)), I.loc_type((('X', 'cmd'), (own,)))))
        taken = 'ifBlock' in h
        if not isinstance(ty, int): continue
        c = None
        if ty == vals['IF']:
            for t, p in r['trace']:
                x = t
                q = p
                if x[0] == 'not': x = x[1]; q = not q
                if x[0] == 'eq0' and isinstance(x[1], tuple) and x[1][0] == 'v' and isinstance(x[1][1], tuple) and x[1][1][0] == 'val': c = not q
        elif ty in (vals['IFDEF'], vals['IFNDEF']):
            for t, p in r['trace']:
                x = t; q = p
                if x[0] == 'not': x = x[1]; q = not q
                if x[0] == 'v' and isinstance(x[1], tuple) and x[1][0] == 'in' and x[1][1][0] == 'D' and tail(x[1][2]) == 'defined': c = q
            if c is not None and ty == vals['IFNDEF']: c = not c
        if c is None: continue
        n += 1
        if c != taken: res.ob('condition', False, '%s.polarity' % cls, '%s (%s): the block laid out is not the one the condition selects (type %s)' % (P.fn[v]['name'], P.where(v), [k for k, x in vals.items() if x == ty]))
    if n: res.ob('%s: the condition selects the block on %d paths' % (cls, n))


def tail(p): return p[-1] if p else ''
