"""Commands in the four phases (layout, binary, listing, symbols), path by path.

The abstract interpreter is driven by a list of decisions: every undecided branch outside summarised
loops follows one of its sides, and all sides are enumerated.  The output position is a pseudo
location changed by the file manager's operations; a contained command is an uninterpreted step of the
position, the same step in layout and in output (the property is shown by induction over nesting).
Loops become closed forms: a sum, a conserved difference, or a fold over the elements."""
from prog import strip, tail, walk
from front import Broken
import terms as T
from absint import Interp, State, ixptr, show
from machine import emit

PHASES = ('Validate', 'Encode', 'writeTempData', 'writeSymData')
POS = ('va', 'hdr', 'file', 'endian')
ERRORS = (1, 2)
MAXPATHS = 6000


def ploc(n): return (('X', 'pos'), (n,))


def pval(n): return ('v', ('in', ('X', 'pos'), (n,)), (64, True) if n in ('va', 'hdr') else None)


class Undecided(Exception): pass


class Paths(Interp):
    def __init__(s, P, E, hooks=None):
        h = dict(HOOKS)
        if hooks: h.update(hooks)
        super().__init__(P, E, h)
        s.unroll = -1
        s.choices = []; s.nchoice = 0; s.trace = []
        s.pipe = s
        s.kills = []
        s.count = {}
        s.cmd = None
        s.phase = None
        s.phasefns = phase_functions(P)
        s.forked = 0
        s.forget = True

    # ---- decisions
    def split(s, c):
        if s.quiet: return super().split(c)
        d = s.decide(c)
        if d is True: return s.st, None
        if d is False: return None, s.st
        # case distinction over the parts of a compound condition
        neg = c[0] == 'not' and c[1][0] in ('or', 'and')
        if neg:
            A, B = s.split(c[1]); return B, A
        if c[0] in ('or', 'and'):
            A, B = s.split(c[1])
            if c[0] == 'or':
                if A is not None: return A, None
                s.st = B; return s.split(c[2])
            if B is not None: return None, B
            s.st = A; return s.split(c[2])
        A, B = super().split(c)
        if A is None or B is None: return A, B
        k = s.nchoice; s.nchoice += 1
        if k >= len(s.choices): s.choices.append(True)
        pick = s.choices[k]
        s.trace.append((c, pick))
        return (A, None) if pick else (None, B)

    def kill(s, why):
        if s.st is not None: s.kills.append((why, s.st.pc))
        s.st = None

    def decide(s, c):
        if isinstance(c, tuple) and c[0] == 'eq0':
            x = c[1]
            # elements of an owning container are not null
            if isinstance(x, tuple) and x[0] == 'v' and isinstance(x[1], tuple) and x[1][0] in ('in', 'fld') and x[2] is None and any(isinstance(p, tuple) and p[0] == 'i' for p in x[1][2]): return False
            if isinstance(x, tuple) and x[0] == 'ptr': return False
        return super().decide(c)

    def loc_type(s, key):
        r, p = key
        if r == ('X', 'pos'): return (64, True) if p in (('va',), ('hdr',)) else None
        c = s.dyn.get(r)
        if c and len(p) == 1:
            todo = [c]
            while todo:
                q = todo.pop()
                for f in s.P.rec.get(q, {}).get('fields', ()):
                    if f['n'] == p[0]: return s.aty(f['ty'])
                todo += s.P.rec.get(q, {}).get('bases', [])
        return super().loc_type(key)

    def fresh(s, *key):
        n = s.count[key] = s.count.get(key, 0) + 1
        return key + (n,)

    # ---- loops
    def summarise(s, st, rangeloc):
        s.lastloop = None
        super().summarise(st, rangeloc)
        L = s.lastloop
        if s.st is None or L is None or L['nbreaks'] or L['left'] or not L['end']: return
        sub = closed(s, L)
        if not sub: return
        for k in list(s.st.mem):
            v = s.st.mem[k]
            if isinstance(v, tuple):
                w = T.subst(v, lambda a: sub.get(a))
                if w is not v and w != v: s.st.mem[k] = w

    # ---- calls
    def call(s, n, want_lv=False):
        name = n.get('name', ''); obj = n.get('obj'); fn = n.get('fn')
        if fn in s.phasefns and obj is not None:
            l = s.obj_loc(n)
            if s.st is None: return 0
            if l != s.cmd:
                ph = s.phasefns[fn]
                if ph in PHASES: return child(s, n, l, ph)
                emit(s, 'info', key_of(l)); return 0
            if tail(name) == 'applyFileInfo': emit(s, 'info', key_of(l)); return 0
        if obj is not None and tail(name).startswith('operator conv') or tail(name) == 'operator bool' and obj is not None:
            if 'ptr' in (n.get('cls') or ''):
                l = s.lv(obj)
                return T.bnot(T.eq(s.load(l, None), 0)) if s.st is not None else 0
        if obj is not None:
            t = tail(name); cls = n.get('cls') or ''
            if fn not in s.P.fn and t in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'crbegin', 'rend', 'crend') and not n['args'] and 'iterator' not in cls:
                l = s.obj_loc(n)
                if s.st is None: return 0
                z = s.size_of(s.load(l, None))
                return ('ptr', l[0], l[1] + (('i', {'begin': 0, 'end': z, 'rbegin': z, 'rend': 0}[t.lstrip('c')]),))
            if 'iterator' in cls:
                l = s.lv(obj)
                if s.st is None: return 0
                v = s.load(l, None)
                if ixptr(v):
                    if t in ('operator++', 'operator--'):
                        w = s.addptr(v, 1 if (t == 'operator++') == ('reverse_iterator' not in cls) else -1, '')
                        s.store(l, w)
                        return ('LOC', l) if not n['args'] else v
                    # a reverse iterator refers to the element before its base
                    if t in ('operator*', 'operator->') and 'reverse_iterator' in cls: v = ('ptr', v[1], v[2][:-1] + (('i', T.sub(v[2][-1][1], 1)),))
                    if t == 'operator*': return ('LOC', (v[1], v[2]))
                    if t == 'operator->': return v
                    if t in ('operator==', 'operator!=') and len(n['args']) == 1:
                        return s.itcmp(t, v, s.rv(n['args'][0]))
        elif tail(name) in ('operator==', 'operator!=') and len(n['args']) == 2 and 'iterator' in str(n['args'][0].get('ty', '')) + str(n['args'][1].get('ty', '')):
            a, b = s.rv(n['args'][0]), s.rv(n['args'][1])
            if s.st is None: return 0
            return s.itcmp(tail(name), a, b)
        elif name in ('std::static_pointer_cast', 'std::dynamic_pointer_cast') and n['args']:
            return s.rv(n['args'][0])
        elif name in ('std::begin', 'std::end', 'std::cbegin', 'std::cend') and n['args']:
            l = s.lv(n['args'][0])
            if s.st is None: return 0
            return ('ptr', l[0], l[1] + (('i', 0 if name.endswith('begin') else s.size_of(s.load(l, None))),))
        elif name == 'std::size' and n['args']:
            l = s.lv(n['args'][0])
            if s.st is None: return 0
            return s.size_of(s.load(l, None))
        if fn not in s.P.fn and n.get('op') != '()':
            lam = next((x for x in (s.callee(a) for a in n['args']) if x), None)
            if lam: return s.callback(n, lam)
        return super().call(n, want_lv)

    def callee(s, a):
        a = strip(a)
        while a.get('k') == 'ctor' and len(a.get('args', ())) == 1: a = strip(a['args'][0])
        if a.get('k') == 'lambda': return a['fn']
        if a.get('k') == 'ref' and 'lambda' in a.get('ty', ''):
            v = s.rv(a)
            if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'F': return v[1][1]
        return None

    def callback(s, n, lam):
        """A library algorithm applied to a function of the program."""
        a = n['args']
        f = s.P.fn.get(lam)
        if n.get('name') == 'std::for_each' and len(a) == 3 and f is not None and len(f['params']) == 1:
            b, e = s.rv(a[0]), s.rv(a[1])
            if s.st is None: return 0
            if ixptr(b) and ixptr(e) and b[1] == e[1] and b[2][:-1] == e[2][:-1] and b[2][-1][1] == 0 and e[2][-1][1] == s.size_of(s.load((b[1], b[2][:-1]), None)):
                p = f['params'][0]
                v = {'k': 'var', 'id': 'each', 'n': p['n'], 'ty': p['ty']}
                s.summarise({'k': 'rangefor', 'l': n.get('l', 0), 'var': v, 'b': {
                    'k': 'call', 'l': n.get('l', 0), 'fn': lam, 'name': f['name'], 'args': [{'k': 'ref', 'dk': 'var', 'id': 'each', 'n': p['n'], 'ty': p['ty']}], 'ty': f['rt']}}, (b[1], b[2][:-1]))
                return 0
        for x in a:
            if s.st is not None: s.rv(x)
        if s.st is None: return 0
        emit(s, 'callback', lam)
        for x in POS: s.store(ploc(x), ('v', ('?',) + s.fresh('callback', x), (64, True) if x in ('va', 'hdr') else None))
        return ('v', ('?',) + s.fresh('callback'), s.aty(n.get('ty', '')))

    def arith(s, op, a, b, ta, tb, ty, e=None):
        if op in ('|', '&') and T.is_bool(a) and T.is_bool(b): return T.bor(a, b) if op == '|' else T.band(a, b)
        r = super().arith(op, a, b, ta, tb, ty, e)
        # instruction words are of no interest here
        if s.forget and op in ('|', '&', '^', '<<', '>>') and isinstance(r, tuple) and T.size(r) > 40: r = ('v', s.fresh('big'), s.aty(ty))
        return r

    def itcmp(s, t, a, b):
        if ixptr(a) and ixptr(b) and a[1] == b[1] and a[2][:-1] == b[2][:-1]: r = T.eq(a[2][-1][1], b[2][-1][1])
        else: r = ('v', ('app', 'iteq', a, b), 'b')
        return r if t.endswith('==') else T.bnot(r)


def phase_functions(P):
    """Function id -> phase, for every overrider of the four phases and of applyFileInfo."""
    c = getattr(P, '_phasefns', None)
    if c is not None: return c
    out = {}
    base = root_class(P)
    for m in P.rec[base]['methods']:
        if m['n'] in PHASES + ('applyFileInfo',):
            out[m['id']] = m['n']
            for o in P.over.get(m['id'], ()): out[o] = m['n']
    P._phasefns = out
    return out


def root_class(P):
    for q in ('CAssemblerCommand',):
        if q in P.rec: return q
    # the class that declares Validate and Encode and has no base that does
    for q, r in P.rec.items():
        ms = {m['n'] for m in r.get('methods', ())}
        if {'Validate', 'Encode'} <= ms and not r.get('bases'): return q
    raise Broken('no command base class found')


def commands(P):
    """Classes that implement a phase of their own or inherit one."""
    b = root_class(P); out = []
    for q in sorted(P.rec):
        todo = [q]; seen = set()
        while todo:
            c = todo.pop()
            if c in seen: continue
            seen.add(c)
            if c == b and q != b: out.append(q); break
            todo += P.rec.get(c, {}).get('bases', [])
    return out


def phase_of(P, I, cls, ph):
    b = root_class(P)
    mid = next((m['id'] for m in P.rec[b]['methods'] if m['n'] == ph), None)
    return I.dispatch(mid, cls) if mid else None


# ------------------------------------------------------------ contained commands
def key_of(l):
    if l[0][0] == 'D' and not l[1]: return l[0][1]
    return ('ptr',) + tuple(l)


def child(I, n, l, ph):
    k = key_of(l)
    if isinstance(k, tuple) and k[0] == 'v' and not I.assume(T.bnot(T.eq(k, 0))):
        I.kill('null'); return 0
    emit(I, 'child', k)
    st = tuple(I.load(ploc(x)) for x in POS)
    st = tuple(mod64(x) for x in st)
    if ph in ('Validate', 'Encode'):
        for x in POS: I.store(ploc(x), ('v', ('app', 'after', x, k, st), (64, True) if x in ('va', 'hdr') else None))
    if ph == 'Validate':
        r = ('v', ('ret', k, I.count.setdefault(('ret', k), 0)), 'b')
        emit(I, 'ret', k, r)
        return r
    return 0


# ------------------------------------------------------------ arithmetic modulo 2^64
M64 = 1 << 64


def c64(k):
    k %= M64
    return k - M64 if k >= M64 // 2 else k


def mod64(t):
    """Normal form modulo 2^64 (wraps to 64 bits dropped where only sums are above them)."""
    if isinstance(t, int): return c64(t)
    if t[0] == 'wrap' and t[1] >= 64: return mod64(t[3])
    if t[0] == 'lin':
        r = T.lin(t[1], [(mod64(x), k) for x, k in t[2]])
        if isinstance(r, int): return c64(r)
        if r[0] == 'lin': return T.lin(c64(r[1]), [(x, c64(k)) for x, k in r[2]])
        return r
    if t[0] == 'ite': return T.ite(t[1], mod64(t[2]), mod64(t[3]))
    if t[0] == '*' and len(t) == 3:
        a, b = mod64(t[1]), mod64(t[2])
        if isinstance(a, int) or isinstance(b, int): return T.mul(a, b)
        return ('*',) + tuple(sorted((a, b), key=T.rk))
    return t


def same64(a, b, I=None):
    a, b = mod64(a), mod64(b)
    if a == b: return True
    if any(isinstance(x, tuple) and x[0] in ('ptr', 'str', 'agg', 'flt') for x in (a, b)): return False
    d = mod64(T.sub(a, b))
    if d == 0: return True
    if I is not None and isinstance(d, tuple):
        d2 = T.subst(d, lambda x: I.fix(x) if I.fix(x) != x else None)
        if mod64(d2) == 0: return True
        for e in (d, T.sub(a, b)):
            if I.decide(T.eq(e, 0)): return True
        eqs = [mod64(f[1]) for f, v in I.st.facts.items() if v and f[0] == 'eq0' and not (isinstance(f[1], tuple) and f[1][0] in ('ptr', 'agg', 'str'))]
        cur = [d]
        for _ in range(3):
            nxt = []
            for x in cur:
                for e in eqs:
                    if not (isinstance(e, tuple) and common(x, e)): continue
                    for y in (mod64(T.sub(x, e)), mod64(T.add(x, e))):
                        if y == 0: return True
                        if T.size(y) <= T.size(x): nxt.append(y)
            cur = nxt[:40]
    return False


def common(x, e):
    """Two sums that share a part."""
    f = lambda t: {u for u, k in t[2]} if t[0] == 'lin' else {t}
    return bool(f(x) & f(e))


# ------------------------------------------------------------ loops in closed form
def has(t, pred):
    if isinstance(t, tuple):
        if t and t[0] == 'v' and pred(t): return True
        return any(has(x, pred) for x in t if isinstance(x, tuple))
    return False


def loopatom(lid):
    return lambda a: isinstance(a[1], tuple) and len(a[1]) > 1 and a[1][0] in ('lv', 'iter', 'more') and a[1][1] == lid


def headatom(h):
    """The unknown that stands for a location at the loop head."""
    if ixptr(h): return h[2][-1][1]
    return h


def scal(v):
    if ixptr(v): return v[2][-1][1]
    return v


def trip(I, L):
    """Number of iterations and the index variable's head atom (None for range loops)."""
    lid = L['id']; mine = loopatom(lid)
    if L['rangeloc' if 'rangeloc' in L else 'range'] is not None:
        return I.size_of(L['range']), None, 0, 1
    c = L['cond']
    if isinstance(c, int): return None
    neg = False
    while c[0] == 'not': neg = not neg; c = c[1]
    for k, h in L['head'].items():
        a = headatom(h)
        if not (isinstance(a, tuple) and a[0] == 'v'): continue
        e, s0 = scal(L['end'].get(k)), scal(L['entry'].get(k))
        if e is None or s0 is None or isinstance(e, tuple) and e[0] in ('ptr', 'agg'): continue
        d = mod64(T.sub(e, a)) if not (isinstance(e, tuple) and e[0] in ('str', 'flt')) else None
        if d not in (1, -1): continue
        if c[0] not in ('le0', 'eq0'): continue
        x = c[1]
        x = x if isinstance(x, tuple) and x[0] == 'lin' else T.lin(0, [(x, 1)])
        parts = dict(x[2]) if isinstance(x, tuple) and x[0] == 'lin' else {x: 1}
        co = parts.pop(a, None)
        const = x[1] if isinstance(x, tuple) and x[0] == 'lin' else 0
        if co not in (1, -1): continue
        rest = T.lin(const, list(parts.items()))
        if isinstance(rest, tuple) and has(rest, mine): continue
        up = d == 1
        # condition to go on
        if c[0] == 'le0' and not neg and co == 1 and up: lim = T.sub(1, rest); n = T.sub(T.sub(1, rest), s0)   # a + rest <= 0 : a < 1-rest
        elif c[0] == 'le0' and not neg and co == -1 and not up: n = T.add(T.sub(s0, rest), 1)                     # -a + rest <= 0 : a >= rest
        elif c[0] == 'le0' and neg and co == -1 and up: n = T.sub(rest, s0)                                       # -a + rest > 0
        elif c[0] == 'le0' and neg and co == 1 and not up: n = T.add(s0, rest)                                    # a + rest > 0
        elif c[0] == 'eq0' and neg:
            lim = T.neg(rest) if co == 1 else rest
            n = T.sub(lim, s0) if up else T.sub(s0, lim)
        else: continue
        lo, hi = T.rng(n, I.st.rng) if I.st is not None else (-T.INF, T.INF)
        if lo < 0 and c[0] == 'le0':
            n = ('v', ('app', 'max0', n), (64, False))
        return n, a, s0, (1 if up else -1)
    return None


def closed(I, L):
    """{head atom: exit value} for locations whose value after the loop has a closed form."""
    lid = L['id']; mine = loopatom(lid)
    tr = trip(I, L)
    out = {}
    K = ('v', ('#', 'k'), (64, False))
    ren = {}
    if tr:
        N, ia, s0, step = tr
        ren[('v', ('iter', lid), (64, False))] = K
        if ia is not None:
            ren[ia] = T.add(s0, K) if step == 1 else T.sub(s0, K)
            out[ia] = T.add(s0, N) if step == 1 else T.sub(s0, N)
    heads = {k: headatom(h) for k, h in L['head'].items()}
    pos = [k for k in heads if k[0] == ('X', 'pos')]
    def num(v): return v is not None and not (isinstance(v, tuple) and v[0] in ('ptr', 'agg', 'str', 'flt') and not ixptr(v))
    for k, a in heads.items():
        if a in out or not (isinstance(a, tuple) and a[0] == 'v'): continue
        e, s = L['end'].get(k), L['entry'].get(k)
        if not num(e) or not num(s): continue
        e, s = scal(e), scal(s)
        if T.is_bool(e) and T.is_bool(s) or a[2] == 'b':
            # flag that stays set once set
            x = accum(e, a)
            if x is not None and not has(x, lambda t: t == a):
                out[a] = T.bor(s if T.is_bool(s) else T.truth(s), ('v', ('any', canon(x, ren), lid), 'b'))
            continue
        d = mod64(T.sub(e, a))
        if tr and not (isinstance(d, tuple) and has(d, mine)):
            out[a] = T.add(s, T.mul(d, N))
            continue
        # a difference that is conserved: same step, or opposite step, of another changed scalar
        done = False
        for k2, a2 in heads.items():
            if k2 == k or not (isinstance(a2, tuple) and a2[0] == 'v') or k2[0] == ('X', 'pos'): continue
            e2, s2 = L['end'].get(k2), L['entry'].get(k2)
            if not num(e2) or not num(s2) or ixptr(e2) or a2[2] == 'b': continue
            d2 = mod64(T.sub(e2, a2))
            if mod64(T.sub(d, d2)) == 0: out[a] = T.add(s, T.sub(a2, s2)); done = True
            elif mod64(T.add(d, d2)) == 0: out[a] = T.sub(s, T.sub(a2, s2)); done = True
            elif isinstance(d, int) and isinstance(d2, int):
                x, y = d, d2
                if y and x % y == 0: out[a] = T.add(s, T.mul(x // y, T.sub(a2, s2))); done = True
            if done: break
    if tr and any(heads[k] not in out for k in pos):
        body = tuple(sorted((k[1][0], canon(mod64(L['end'][k]) if num(L['end'][k]) else L['end'][k], {**ren, **{heads[j]: ('v', ('#', j[1][0]), None) for j in pos}})) for k in pos))
        if not has(body, mine):
            ent = tuple(sorted((k[1][0], mod64(L['entry'][k]) if num(L['entry'][k]) else L['entry'][k]) for k in pos))
            for k in pos:
                if heads[k] not in out: out[heads[k]] = ('v', ('app', 'fold', k[1][0], body, mod64(N), ent), heads[k][2])
    # one closed form may mention another
    for _ in range(2):
        out = {a: T.subst(v, lambda x, a=a: out.get(x) if x != a and x in out else None) if isinstance(v, tuple) else v for a, v in out.items()}
    return out


def accum(e, a):
    """X with e == (a or X); None if e is not of that form."""
    if e == a: return 0
    if isinstance(e, int): return 1 if e == 1 else None
    if e[0] == 'or':
        x, y = e[1], e[2]
        if x == a: return y
        if y == a: return x
        ax, ay = accum(x, a), accum(y, a)
        if ax is not None and has(x, lambda t: t == a): return T.bor(ax, y) if not has(y, lambda t: t == a) else (T.bor(ax, ay) if ay is not None else None)
        if ay is not None and has(y, lambda t: t == a): return T.bor(ay, x)
        return None
    if e[0] == 'ite':
        x, y = accum(e[2], a), accum(e[3], a)
        if x is not None and y is not None: return T.bor(T.band(e[1], x), T.band(T.bnot(e[1]), y))
        # ite(a, 1, X)
        if e[1] == a and e[2] == 1: return e[3]
    return None


def canon(t, ren):
    def f(x):
        r = ren.get(x)
        return r
    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'v' and len(x) == 3:
                r = ren.get(x)
                if r is not None: return r
            return tuple(go(y) for y in x)
        return x
    return go(t)


# ------------------------------------------------------------ file manager
def h_get(n):
    def h(I, node, want):
        if node.get('obj') is not None: I.obj_loc(node)
        return I.load(ploc(n)) if I.st is not None else 0
    return h


def rdpos(I, n):
    v = I.load(ploc(n))
    if isinstance(v, tuple) and v[0] == 'v' and v[2] is None and n in ('va', 'hdr'): v = ('v', v[1], (64, True))
    return v


def h_va(I, n, want): return rdpos(I, 'va')
def h_pa(I, n, want): return T.wrap(64, True, T.sub(rdpos(I, 'va'), rdpos(I, 'hdr')), I.st.rng)
def h_hdr(I, n, want): return rdpos(I, 'hdr')


def h_seekv(I, n, want):
    v = I.rv(n['args'][0])
    if I.st is not None: I.store(ploc('va'), v)
    return 1


def h_seekp(I, n, want):
    v = I.rv(n['args'][0])
    if I.st is not None: I.store(ploc('va'), T.add(v, rdpos(I, 'hdr')))
    return 1


def h_adv(I, n, want):
    v = I.rv(n['args'][0])
    if I.st is not None: I.store(ploc('va'), mod64(T.add(rdpos(I, 'va'), v)))
    return 1


def h_write(w):
    def h(I, n, want):
        vs = [I.rv(a) for a in n['args']]
        if I.st is None: return 0
        emit(I, 'write', w if w else vs[-1], vs[0] if w else None)
        I.store(ploc('va'), mod64(T.add(rdpos(I, 'va'), w if w else vs[-1])))
        return 1
    return h


def h_open(I, n, want):
    f = I.rv(n['args'][0])
    for a in n['args'][1:]: I.rv(a)
    if I.st is None: return 0
    I.store(ploc('file'), f)
    for x in ('va', 'hdr'): I.store(ploc(x), ('v', ('app', 'open', x, f), (64, True)))
    return 1


def h_close(I, n, want):
    I.store(ploc('file'), 0); I.store(ploc('va'), -1); I.store(ploc('hdr'), -1)
    return 0


def h_fileid(I, n, want): return ('v', ('app', 'fileid', I.load(ploc('file'))), (64, True))
def h_curfile(I, n, want): return ('LOC', ploc('file'))
def h_hasopen(I, n, want): return T.bnot(T.eq(I.load(ploc('file')), 0))


def h_endian(I, n, want):
    v = I.rv(n['args'][0])
    if I.st is not None: I.store(ploc('endian'), v)
    return 0


def h_sethdr(I, n, want):
    v = I.rv(n['args'][0])
    if I.st is not None: I.store(ploc('hdr'), v)
    return 0


def h_err(I, n, want):
    sev = I.rv(n['args'][0])
    if I.st is None: return 0
    if sev in ERRORS:
        I.kill('error: ' + next((x['v'] for a in n['args'][1:] for x in walk(a) if x.get('k') == 'str'), '?'))
    return 0


def h_nothing(I, n, want):
    return 0


def h_evalint(I, n, want):
    l = I.obj_loc(n) if n.get('obj') is not None else None
    if I.st is None: return 0
    d = I.lv(n['args'][0])
    if I.st is None: return 0
    k = I.fresh('val', l)
    ty = I.aty(n['args'][0].get('ty', '')) or (64, True)
    I.store(d, ('v', k, ty))
    return ('v', ('ok',) + k, 'b')


def h_evalstr(I, n, want):
    l = I.obj_loc(n) if n.get('obj') is not None else None
    if I.st is None: return 0
    d = I.lv(n['args'][0])
    for a in n['args'][1:]:
        if I.st is not None and a.get('k') != 'defarg': I.rv(a)
    if I.st is None: return 0
    k = I.fresh('val', l)
    I.store(d, ('v', k, None))
    return ('v', ('ok',) + k, 'b')


def h_eval(I, n, want):
    l = I.obj_loc(n) if n.get('obj') is not None else None
    if I.st is None: return 0
    return ('v', I.fresh('val', l), None)


def h_relocate(I, n, want):
    """Contract of the relocators: the argument becomes the size of the relocated data."""
    l = I.obj_loc(n)
    if I.st is None: return 0
    d = I.lv(n['args'][0])
    if I.st is None: return 0
    data = ('v', I.fresh('reloc', l), None)
    I.store((('X', 'reloc'), (key_of(l),)), data)
    I.store(d, I.size_of(data))
    return ('v', I.fresh('relok', l), 'b')


def h_reldata(I, n, want):
    l = I.obj_loc(n)
    if I.st is None: return 0
    return ('LOC', (('X', 'reloc'), (key_of(l),)))


def h_changed(I, n, want):
    l = I.obj_loc(n)
    if I.st is None: return 0
    r = ('v', ('datachanged', l), 'b')
    emit(I, 'ret', ('rel', l), r)
    return r


def h_alloc(name):
    def h(I, n, want):
        vs = []; outs = []
        pm = n.get('pm', '')
        for i, a in enumerate(n['args']):
            if i < len(pm) and pm[i] == 'n':
                l = I.lv(a); outs.append((i, l))
                vs.append(I.load(l, None) if I.st is not None else 0)
            else: vs.append(I.rv(a))
            if I.st is None: return 0
        emit(I, 'registry', name, tuple(vs))
        for i, l in outs: I.store(l, ('v', I.fresh('alloc', name, i), (64, True)))
        return ('v', I.fresh('alloc', name), I.aty(n.get('ty', '')))
    return h


def h_fromfile(I, n, want):
    vs = [I.rv(a) for a in n['args']]
    d = ('v', I.fresh('filedata'), None)
    if I.st is not None: I.st.rng[I.size_of(d)] = (0, (1 << 31) - 1)
    return d


def h_bytes(I, n, want):
    """Byte arrays are values with a size; what is in them does not matter here."""
    if n.get('obj') is None: return NotImplemented
    l = I.obj_loc(n)
    if I.st is None: return 0
    t = tail(n.get('name', ''))
    if t == 'size': return I.size_of(I.load(l, None))
    vs = tuple(I.rv(a) for a in n['args'])
    if I.st is None: return 0
    if t == 'clear': I.store(l, ('v', ('empty', 'ByteArray'), None)); return 0
    if n.get('cm') or t in ('data', 'operator[]'): return ('v', I.fresh('bytes', t), I.aty(n.get('ty', '')))
    if t == 'operator=': I.store(l, vs[0]); return ('LOC', l)
    I.store(l, ('v', ('mut', t, I.load(l, None), vs), None))
    return ('v', I.fresh('bytes', t), I.aty(n.get('ty', '')))


HOOKS = {
    'FileManager::getVirtualAddress': h_va, 'FileManager::getPhysicalAddress': h_pa, 'FileManager::getHeaderSize': h_hdr,
    'FileManager::seekVirtual': h_seekv, 'FileManager::seekPhysical': h_seekp, 'FileManager::advanceMemory': h_adv,
    'FileManager::write': h_write(0), 'FileManager::writeU8': h_write(1), 'FileManager::writeU16': h_write(2), 'FileManager::writeU32': h_write(4), 'FileManager::writeU64': h_write(8),
    'FileManager::openFile': h_open, 'FileManager::closeFile': h_close, 'FileManager::getOpenFileID': h_fileid, 'FileManager::getOpenFile': h_curfile,
    'FileManager::hasOpenFile': h_hasopen, 'FileManager::setEndianness': h_endian,
    'Logger::printError': h_err, 'Logger::queueError': h_err, 'Logger::printLine': h_nothing, 'Logger::print': h_nothing,
    'Expression::evaluateInteger': h_evalint, 'Expression::evaluateString': h_evalstr, 'Expression::evaluateIdentifier': h_evalstr, 'Expression::evaluate': h_eval,
    'ElfRelocator::relocate': h_relocate, 'PsxRelocator::relocate': h_relocate, 'ElfRelocator::getData': h_reldata, 'PsxRelocator::getData': h_reldata,
    'ElfRelocator::hasDataChanged': h_changed, 'PsxRelocator::hasDataChanged': h_changed,
    'memset': h_nothing, 'memcpy': h_nothing, 'ByteArray::fromFile': h_fromfile,
    'tfm::format': lambda I, n, want: ('v', I.fresh('fmt'), None),
}
for c in ('AssemblerFile', 'GenericAssemblerFile'):
    for m, h in (('getVirtualAddress', h_va), ('getPhysicalAddress', h_pa), ('seekVirtual', h_seekv), ('seekPhysical', h_seekp), ('setHeaderSize', h_sethdr), ('getHeaderSize', h_hdr)):
        HOOKS['%s::%s' % (c, m)] = h


def hooks_for(P):
    """Hooks by function id: the architectures' section handling, the registries, listing and symbol sinks."""
    h = {}
    for fid, f in P.fn.items():
        q = f['name']
        if tail(q) in ('NextSection', 'Pass2', 'Revalidate') : h[fid] = h_nothing
        c = q.rsplit('::', 1)[0]
        if c == 'ByteArray' and not f.get('ctor') and tail(q) not in ('fromFile', '~ByteArray'): h[fid] = h_bytes
        if c == 'Allocations': h[fid] = h_alloc(tail(q))
        if c in ('TempData', 'SymbolData', 'EncodingTable', 'SymbolTable'): h[fid] = opaque_hook
    for q in ('Architecture::NextSection', 'Architecture::Pass2', 'Architecture::Revalidate'): h[q] = h_nothing
    return h


def opaque_hook(I, n, want):
    l = I.obj_loc(n) if n.get('obj') is not None else None
    if I.st is None: return 0
    return I.opaque(n, I.P.targets(n) or [n.get('fn')], l)


# ------------------------------------------------------------ driver
class Path:
    __slots__ = ('trace', 'ret', 'va', 'st', 'ev', 'pos', 'why', 'pc', 'I')


def start(I, cls):
    root = ('X', 'cmd')
    I.dyn[root] = cls
    I.cmd = (root, ())
    for x in POS: I.store(ploc(x), pval(x))
    I.store((('G', 'g_fileManager'), ()), ('ptr', ('X', 'fm'), ()))


def run_fn(I, fid, ph):
    """Interpret one phase from the current state."""
    I.phase = ph
    f = I.P.fn[fid]
    args = []
    for i, p in enumerate(f['params']):
        t = I.P.ty(p['ty'])
        if t.get('ref'): args.append((p, True, ('ptr', ('X', 'arg%d' % i), ())))
        else: args.append((p, False, ('v', ('arg', i), I.aty(p['ty']))))
    I.st.ev = ()
    return I.enter(fid, args, I.cmd, None)


def enum(P, E, cls, phases, assume_quiet=True, hooks=None, join=False, make=None, limit=MAXPATHS):
    """All paths of layout followed by each of the phases.  [{phase: Path}], or Undecided."""
    hk = hooks_for(P)
    if hooks: hk.update(hooks)
    out = []; kills = []
    todo = [[]]
    n = 0
    while todo:
        pre = todo.pop()
        n += 1
        if n > limit: raise Undecided('more than %d paths' % limit)
        I = Paths(P, E, hk)
        I.choices = list(pre)
        if join: I.quiet = 1
        start(I, cls)
        rec = one(I, P, cls, phases, assume_quiet)
        for k in range(len(pre), len(I.choices)):
            todo.append(I.choices[:k] + [not I.choices[k]])
        kills += I.kills
        if rec is not None: out.append(rec)
    return out, kills, n


def one(I, P, cls, phases, assume_quiet):
    rec = {'I': I, 'notes': I.notes}
    v = phase_of(P, I, cls, 'Validate')
    if v is None: return None
    r = run_fn(I, v, 'Validate')
    if I.st is None: return None
    rec['ret'] = r
    rec['V'] = snap(I)
    rec['trace'] = list(I.trace)
    if assume_quiet:
        c = T.truth(r)
        if not I.assume(c, False): return None
        rec['quiet'] = True
    base = I.st
    rec['vst'] = base.copy()
    rec['count'] = dict(I.count)
    # later phases each start from the laid out state and from where layout started
    for ph in phases:
        f = phase_of(P, I, cls, ph)
        I.st = base.copy()
        if f is None:
            for x in POS: I.store(ploc(x), pval(x))
            rec[ph] = snap(I); continue
        for x in POS: I.store(ploc(x), pval(x))
        k = I.nchoice
        I.trace = []
        run_fn(I, f, ph)
        rec[ph] = snap(I) if I.st is not None else None
    return rec


def snap(I):
    p = Path()
    p.trace = tuple(I.trace); p.ev = I.st.ev; p.st = I.st
    p.pos = {x: I.load(ploc(x)) for x in POS}
    return p


# ------------------------------------------------------------ loops without closed form: specialised to constants
def loops_of(ev):
    for e in ev:
        if e[0] == 'loop':
            yield e[1]; yield from loops_of(e[1]['body'] or ())
        elif e[0] == 'gate': yield from loops_of(e[2]); yield from loops_of(e[3])


def ints(t, out):
    if isinstance(t, int) and not isinstance(t, bool): out.add(abs(t))
    elif isinstance(t, tuple):
        if t[0] == 'lin':
            ints(t[1], out)
            for x, k in t[2]: out.add(abs(k)); ints(x, out)
        elif t[0] == 'v': return
        else:
            for x in t[1:]: ints(x, out)


def bounds(I, ev):
    """(entry value of a loop variable, constants to try) for the loops of a trace."""
    out = []
    for L in loops_of(ev):
        c = L['cond']
        for k, h in L['head'].items():
            a = headatom(h)
            if not (isinstance(a, tuple) and has(c, lambda t: t == a)): continue
            E = scal(L['entry'].get(k))
            if not isinstance(E, tuple) or E[0] in ('ptr', 'agg', 'str', 'flt'): continue
            ks = {0, 1}
            ints(c, ks)
            for k2, h2 in L['head'].items():
                e = scal(L['end'].get(k2)); a2 = headatom(h2)
                if not (isinstance(e, tuple) and e[0] in ('ptr', 'agg', 'str', 'flt')) and e is not None:
                    d = mod64(T.sub(e, a2)) if isinstance(a2, tuple) and a2[0] == 'v' else e
                    ints(d, ks)
            vals = set()
            for x in ks:
                for m in (1, 2):
                    for o in (-1, 0, 1): vals.add(m * x + o)
            out.append((E, sorted(v for v in vals if 0 <= v <= 1100)[:24]))
    return out


def specialise(P, r, cls, ph, limit=40):
    """The same phase with the number of iterations fixed: yields (constant, atom, value of the atom, end state)."""
    I = r['I']
    f = phase_of(P, I, cls, ph)
    vst = r['vst']
    for E, vals in bounds(I, r[ph].ev):
        while E[0] == 'wrap': E = E[3]
        parts = dict(E[2]) if E[0] == 'lin' else {E: 1}
        known = set()
        for x in vst.mem.values(): atoms_in(x, known)
        cand = [a for a, k in parts.items() if a[0] == 'v' and k in (1, -1) and a in known and not (isinstance(a[1], tuple) and a[1][0] in ('app',) and a[1][1] != 'size')]
        cand = [a for a in cand if not any(a != b and has(b, lambda t: t == a) for b in parts)]
        if not cand: continue
        a = cand[0]; k = parts[a]
        rest = T.lin(E[1] if E[0] == 'lin' else 0, [(x, j) for x, j in parts.items() if x != a])
        for c in vals:
            v = T.sub(c, rest) if k == 1 else T.sub(rest, c)
            sub = lambda x: T.subst(x, lambda y: v if y == a else None) if isinstance(x, tuple) else x
            st = vst.copy()
            if isinstance(v, int):
                lo, hi = T.rng(a, vst.rng)
                if not lo <= v <= hi: continue
            st.mem = {l: sub(x) for l, x in vst.mem.items()}
            st.rng = {x: y for x, y in vst.rng.items() if not has(x, lambda t: t == a)}
            st.ne = {x: y for x, y in vst.ne.items() if not has(x, lambda t: t == a)}
            st.facts = {}
            I.st = st
            ok = True
            for fact, val in vst.facts.items():
                g = sub(fact)
                if g == fact: st.facts[fact] = val
                elif isinstance(g, int): ok = ok and bool(g) == val
                else: ok = ok and I.assume(g, val)
                if not ok or I.st is None: break
            if not ok or I.st is None: continue
            base = I.st
            todo = [[]]; n = 0
            while todo and n < limit:
                pre = todo.pop(); n += 1
                I.st = base.copy(); I.choices = list(pre); I.nchoice = 0; I.count = dict(r['count']); I.trace = []
                for x in POS: I.store(ploc(x), pval(x))
                u, q = I.unroll, I.quiet
                I.unroll, I.quiet = 2000, 0
                try: run_fn(I, f, ph)
                finally: I.unroll, I.quiet = u, q
                for j in range(len(pre), len(I.choices)): todo.append(I.choices[:j] + [not I.choices[j]])
                if I.st is not None: yield c, E, sub, I.st


# ------------------------------------------------------------ comparing positions
LOSS = ('lv', 'hv', 'which', 'leave', 'more', '?', 'other', 'big', 'mutidx', 'any')


def lossy(t, known=()):
    """Atoms that stand for something the interpretation lost track of."""
    out = set()
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'v' and isinstance(x[1], tuple) and x[1] and x[1][0] in LOSS and x not in known: out.add(x)
            for y in x: go(y)
    go(t)
    return out


def atoms_in(t, out):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'v': out.add(t)
        for y in t: atoms_in(y, out)


def eliminate(I, d):
    """Atoms of loops are replaced by what the known equalities say about them."""
    for _ in range(4):
        if not isinstance(d, tuple): return d
        bad = lossy(d)
        if not bad: return d
        e = mod64(T.subst(d, lambda x: I.fix(x) if x in bad and I.fix(x) != x else None))
        for f, v in I.st.facts.items():
            if not v or f[0] != 'eq0' or not isinstance(e, tuple): continue
            x = mod64(f[1]) if not (isinstance(f[1], tuple) and f[1][0] in ('ptr', 'agg', 'str', 'flt')) else None
            if not isinstance(x, tuple): continue
            parts = dict(x[2]) if x[0] == 'lin' else {x: 1}
            for a in list(parts):
                if a in lossy(e) and parts[a] in (1, -1):
                    r = T.lin(x[1] if x[0] == 'lin' else 0, [(y, k) for y, k in parts.items() if y != a])
                    r = T.neg(r) if parts[a] == 1 else r
                    if a not in lossy(r) : e = mod64(T.subst(e, lambda y: r if y == a else None))
        if e == d: return d
        d = e
    return d


def firstite(t):
    if isinstance(t, tuple):
        if t and t[0] == 'ite': return t[1]
        if t and t[0] == 'lin':
            for x, k in t[2]:
                c = firstite(x)
                if c is not None: return c
        if t and t[0] in ('wrap',): return firstite(t[3])
        if t and t[0] == '*': return firstite(t[1]) or firstite(t[2])
    return None


def cases(I, d, depth=10):
    """Values a difference has, by cases of the gates in it: [(conditions, normal form)]."""
    d = mod64(d) if not (isinstance(d, tuple) and d[0] in ('ptr', 'agg', 'str', 'flt')) else d
    c = firstite(d)
    if c is None or depth == 0: return [((), eliminate(I, d))]
    out = []
    st = I.st
    for pol in (True, False):
        I.st = st.copy()
        if not I.assume(c, pol): continue
        e = T.subst(d, lambda x: (x[2] if pol else x[3]) if x[0] == 'ite' and x[1] == c else (I.fix(x) if x[0] == 'v' and I.fix(x) != x else None))
        for cs, r in cases(I, e, depth - 1):
            if r == 0 or isinstance(r, tuple) and same64(r, 0, I): r = 0
            out.append((((c, pol),) + cs, r))
    I.st = st
    return out


def verdict(I, a, b, known):
    """'same', 'differ' or 'undecided' for two position values."""
    if a == b: return 'same', None
    sp = ('ptr', 'agg', 'str', 'flt')
    if any(isinstance(x, tuple) and x[0] in sp for x in (a, b)):
        if lossy((a, b), known): return 'undecided', None
        return 'differ', (a, b)
    if same64(a, b, I): return 'same', None
    res = 'same'; w = None
    for cs, d in cases(I, T.sub(a, b)):
        if d == 0: continue
        if lossy(d, known) : 
            if res == 'same': res = 'undecided'
            continue
        return 'differ', (cs, d)
    return res, w
