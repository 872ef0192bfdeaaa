"""Abstract interpretation of functions over value numbers (gated values, intervals).

One abstract state per program point: branches are interpreted separately and joined again, differing
values become gated values ('ite'), differing event sequences become gated events.  Loops whose
condition is decided are unrolled, all others are summarised: every location the body changes is
replaced by an unknown and the body is interpreted once from there.  Nothing of the program is run."""
from prog import strip, tail, walk, walk_fn
import terms as T
from terms import INF

PTRS = ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr', 'std::__shared_ptr', 'std::reference_wrapper')
MAXDEPTH = 14
UNROLL = 700


class State:
    __slots__ = ('mem', 'facts', 'rng', 'ne', 'ev', 'pc')

    def __init__(s):
        s.mem = {}; s.facts = {}; s.rng = {}; s.ne = {}; s.ev = (); s.pc = ()

    def copy(s):
        n = State.__new__(State)
        n.mem = s.mem.copy(); n.facts = s.facts.copy(); n.rng = s.rng.copy(); n.ne = s.ne.copy(); n.ev = s.ev; n.pc = s.pc
        return n


class Frame:
    __slots__ = ('f', 'no', 'this', 'rets', 'loops', 'byref')

    def __init__(s, f, no, this):
        s.f = f; s.no = no; s.this = this; s.rets = []; s.loops = []


class Loop:
    __slots__ = ('breaks', 'conts', 'sw')

    def __init__(s, sw=False):
        s.breaks = []; s.conts = []; s.sw = sw


def reffields(P):
    r = getattr(P, '_reffields', None)
    if r is None: r = P._reffields = {f['q'] for c in P.rec.values() for f in c.get('fields', ()) if P.ty(f['ty']).get('ref')}
    return r


class Interp:
    def __init__(self, P, E=None, hooks=None, inline=None):
        self.P = P; self.E = E; self.hooks = hooks or {}; self.inline = inline
        self.st = State(); self.frames = []; self.nframe = 0; self.nobj = 0; self.nloop = 0
        self.ginit = {}
        self.dropnull = None   # a function whose null results are of no interest
        self.dyn = {}          # root -> dynamic class
        self.notes = {}        # things given up on, by reason
        self.active = []
        self.written_globals = None
        self._refs = set()
        self.reffields = reffields(P)
        self.width = {}        # location -> bits of the scalar declared there
        self.ltype = {}        # local -> type of the scalar declared there
        self.quiet = 0         # > 0: branches are always joined
        self.unroll = UNROLL
        self.elemw = {}        # location of an array -> bits per element

    # ------------------------------------------------------------ types
    def aty(self, ty):
        t = self.P.ty(ty)
        if t.get('bool'): return 'b'
        if 'w' in t: return (t['w'], bool(t.get('sg')))
        if 'fl' in t: return 'f'
        return None

    def is_rec(self, ty):
        t = self.P.ty(ty)
        return 'rec' in t and t['rec'] not in PTRS and 'ptr' not in t

    # ------------------------------------------------------------ memory
    def load(self, loc, ty=None):
        root, path = loc
        mem = self.st.mem
        if loc in mem:
            v = mem[loc]
            if self.has_sub(loc): v = self.snapshot(loc)
            return self.fix(v)
        for k in range(len(path) - 1, -1, -1):
            a = (root, path[:k])
            if a in mem:
                if self.is_agg(ty) and self.has_sub(loc): return self.snapshot(loc, self.project(mem[a], path[k:], ty))
                return self.fix(self.project(mem[a], path[k:], ty))
        if self.is_agg(ty) and self.has_sub(loc): return self.snapshot(loc, self.initial(root, path, ty))
        return self.fix(self.initial(root, path, ty))

    def is_agg(self, ty):
        if ty is None: return True
        t = self.P.ty(ty)
        return 'rec' in t or 'elem' in t

    def has_sub(self, loc):
        root, path = loc; n = len(path)
        for r, p in self.st.mem:
            if r == root and len(p) > n and p[:n] == path: return True
        return False

    def snapshot(self, loc, base=None):
        root, path = loc; n = len(path)
        if base is None: base = self.st.mem.get(loc)
        if base is None: base = self.initial(root, path, None)
        sub = sorted(((p[n:], v) for (r, p), v in self.st.mem.items() if r == root and len(p) > n and p[:n] == path), key=lambda x: (len(x[0]), T.rk(x[0])))
        if isinstance(base, tuple) and base[0] == 'agg':
            keep = [(p, v) for p, v in base[2] if not any(p[:len(q)] == q for q, w in sub)]
            sub = sorted(keep + sub, key=lambda x: (len(x[0]), T.rk(x[0])))
            base = base[1]
        return ('agg', base, tuple(sub))

    def fix(self, v):
        """Replace an atom by its value where the facts leave only one."""
        if isinstance(v, tuple) and v and v[0] == 'v':
            r = self.st.rng.get(v)
            if r and r[0] == r[1]: return r[0]
            if v[2] == 'b':
                f = self.st.facts.get(v)
                if f is not None: return 1 if f else 0
        elif isinstance(v, tuple) and v and v[0] == 'ite':
            d = self.decide(v[1])
            if d is not None: return self.fix(v[2] if d else v[3])
        return v

    def project(self, v, rest, ty):
        if not rest: return v
        if isinstance(v, int):
            return 0 if v == 0 else ('v', ('fld', v, rest), self.aty(ty) if ty else None)
        if v[0] == 'ite': return T.ite(v[1], self.project(v[2], rest, ty), self.project(v[3], rest, ty))
        if v[0] == 'agg':
            best = None
            for p, x in v[2]:
                if rest[:len(p)] == p and (best is None or len(p) > len(best[0])): best = (p, x)
            if best: return self.project(best[1], rest[len(best[0]):], ty)
            sub = [(p[len(rest):], x) for p, x in v[2] if p[:len(rest)] == rest]
            b = self.project(v[1], rest, ty)
            if sub: return ('agg', b, tuple(sub))
            return b
        if v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] == 'in': return self.initial(v[1][1], v[1][2] + tuple(rest), ty)
        if v[0] == 'str' and len(rest) == 1 and isinstance(rest[0], tuple) and isinstance(rest[0][1], int):
            b = v[1].encode('latin-1', 'replace')
            return b[rest[0][1]] if 0 <= rest[0][1] < len(b) else 0
        return ('v', ('fld', v, tuple(rest)), self.aty(ty) if ty else None)

    def initial(self, root, path, ty):
        if root[0] == 'G':
            var = self.P.vars.get(root[1])
            if var is not None and 'init' in var and (var.get('const') or not self.global_written(root[1])):
                if root[1] not in self.ginit:
                    self.ginit[root[1]] = None
                    self.ginit[root[1]] = self.const_init(var['init'], var['ty'])
                v = self.ginit[root[1]]
                if v is not None: return self.project(v, path, ty)
        if root[0] == 'S':
            s = root[1].encode('latin-1', 'replace')
            if path and isinstance(path[-1], tuple) and isinstance(path[-1][1], int):
                i = path[-1][1]
                return (s[i] if s[i] < 128 else s[i] - 256) if 0 <= i < len(s) else 0
        return ('v', ('in', root, tuple(path)), self.aty(ty) if ty else None)

    def global_written(self, q):
        if self.written_globals is None:
            w = set()
            if self.E:
                for f in self.P.fn:
                    if self.P.fn[f].get('implicit'): continue
                    for l in self.E.W.get(f, ()):
                        if l[0][0] == 'G': w.add(l[0][1])
            self.written_globals = w
        return q in self.written_globals

    def const_init(self, n, ty):
        """Value of a constant initialiser (tables)."""
        save = self.st, self.frames
        self.st = State(); self.frames = [Frame({'params': [], 'name': '?', 'file': ''}, -1, None)]
        try: return self.rv(n)
        finally: self.st, self.frames = save

    def store(self, loc, v):
        root, path = loc; n = len(path)
        mem = self.st.mem
        if n == 0 or True:
            dead = [k for k in mem if k[0] == root and len(k[1]) > n and k[1][:n] == path]
            for k in dead: del mem[k]
        # members of an anonymous union share their storage
        if n > 1 and isinstance(path[-2], str) and path[-2].endswith('(anon)') and self.P.rec.get(path[-2], {}).get('union'):
            for f in self.P.rec[path[-2]]['fields']:
                if f['n'] != path[-1]: self.storesub(root, path[:-1] + (f['n'],), ('v', ('bits', f['n'], v if not isinstance(v, tuple) or v[0] != 'agg' else v[1]), self.aty(f['ty'])))
        # symbolic index: everything in that array may change
        for i, e in enumerate(path):
            if isinstance(e, tuple) and not isinstance(e[1], int):
                base = (root, path[:i])
                for k in [k for k in mem if k[0] == root and k[1][:i] == path[:i] and len(k[1]) > i and not distinct(k[1][i], e)]: del mem[k]
                self.nobj += 1
                mem[base] = ('v', ('mutidx', self.nobj), None)
                break
        if isinstance(v, tuple) and v[0] == 'agg':
            mem[loc] = v[1]
            for p, x in v[2]: mem[(root, path + tuple(p))] = x
        else: mem[loc] = v

    def storesub(self, root, path, v):
        for k in [k for k in self.st.mem if k[0] == root and k[1][:len(path)] == path]: del self.st.mem[k]
        self.st.mem[(root, path)] = v

    def havoc(self, loc, why):
        self.nobj += 1
        self.store(loc, ('v', ('hv', why, self.nobj), None))

    def deref(self, v):
        """Location a pointer value denotes."""
        if isinstance(v, tuple) and v[0] == 'ptr': return (v[1], v[2])
        return (('D', v), ())

    # ------------------------------------------------------------ facts
    def decide(self, c):
        """Truth of a boolean term in the current state: True, False or None."""
        if isinstance(c, int): return bool(c)
        op = c[0]
        if op == 'not':
            d = self.decide(c[1]); return None if d is None else not d
        if op == 'and':
            a = self.decide(c[1])
            if a is False: return False
            b = self.decide(c[2])
            if b is False: return False
            return True if a and b else None
        if op == 'or':
            a = self.decide(c[1])
            if a: return True
            b = self.decide(c[2])
            if b: return True
            return False if a is False and b is False else None
        if op == 'ite':
            g = self.decide(c[1])
            if g is not None: return self.decide(c[2] if g else c[3])
            a = self.decide(c[2]); b = self.decide(c[3])
            return a if a == b else None
        b, pol = T.lit(c)
        f = self.st.facts.get(b)
        if f is not None: return f == pol
        if op == 'le0':
            lo, hi = T.rng(c[1], self.st.rng)
            if hi <= 0: return True
            if lo > 0: return False
        elif op == 'eq0':
            e = c[1]
            lo, hi = T.rng(e, self.st.rng)
            if lo > 0 or hi < 0: return False
            if lo == hi == 0: return True
            x, k = self.single(e)
            if x is not None and k in self.st.ne.get(x, ()): return False
            if x is not None and isinstance(x, tuple) and x[0] == '&': return None
        elif op == 'v' and c[2] == 'b':
            r = self.st.rng.get(c)
            if r and r[0] == r[1]: return bool(r[0])
        return None

    def single(self, e):
        """e == 0  <=>  x == k."""
        if isinstance(e, tuple) and e[0] == 'lin' and len(e[2]) == 1:
            x, c = e[2][0]
            if e[1] % c == 0: return x, -e[1] // c
            return None, None
        return e, 0

    def narrow(self, x, lo, hi):
        st = self.st
        a, b = T.rng(x, st.rng)
        lo = max(a, lo); hi = min(b, hi)
        ne = st.ne.get(x, ())
        while lo in ne: lo += 1
        while hi in ne: hi -= 1
        if lo > hi: return False
        if (lo, hi) != st.rng.get(x):
            st.rng[x] = (lo, hi)
            if isinstance(x, tuple):
                if x[0] == 'abs' and hi < INF:
                    return self.narrow(x[1], -hi, hi)
                if x[0] == 'wrap' and not x[2]:
                    w = x[1]; l2, h2 = T.rng(x[3], st.rng)
                    if -(1 << w) <= l2 and l2 < 0 and 0 <= h2 <= (1 << w) - 1:
                        # non-negative part maps to itself, negative part to [2^w+l2, 2^w-1]
                        if hi < (1 << w) + l2: return self.narrow(x[3], max(lo, 0), hi)
                        if lo > h2: return self.narrow(x[3], lo - (1 << w), hi - (1 << w))
                if x[0] == 'lin' and len(x[2]) == 1:
                    t, k = x[2][0]
                    l = (lo - x[1]); h = (hi - x[1])
                    if k < 0: l, h, k = -h, -l, -k
                    l = l if l == -INF else -((-int(l)) // k); h = h if h == INF else int(h) // k
                    return self.narrow(t, l, h)
                if x[0] == '>>' and isinstance(x[2], int):
                    return self.narrow(x[1], lo if lo == -INF else int(lo) << x[2], hi if hi == INF else ((int(hi) + 1) << x[2]) - 1)
        return True

    def assume(self, c, pol=True):
        """Add a condition to the current state; False when it contradicts what is known."""
        if not pol: c = T.bnot(c)
        if isinstance(c, int): return bool(c)
        d = self.decide(c)
        if d is not None: return d
        op = c[0]
        if op == 'and': return self.assume(c[1]) and self.assume(c[2])
        if op == 'not' and c[1][0] == 'or': return self.assume(T.bnot(c[1][1])) and self.assume(T.bnot(c[1][2]))
        if op == 'or':
            da = self.decide(c[1]); db = self.decide(c[2])
            if da is False: return self.assume(c[2])
            if db is False: return self.assume(c[1])
        b, p = T.lit(c)
        self.st.facts[b] = p
        if op == 'le0':
            e = c[1]
            if isinstance(e, tuple) and e[0] == 'lin':
                # bound each part by the ranges of the others
                for x, k in e[2]:
                    rest = T.lin(e[1], [(y, j) for y, j in e[2] if y != x])
                    lo, hi = T.rng(rest, self.st.rng)
                    # k*x <= -rest
                    if lo == -INF: continue
                    lim = -lo
                    if k > 0:
                        if not self.narrow(x, -INF, lim // k): return False
                    else:
                        if not self.narrow(x, -(lim // -k), INF): return False
            else:
                if not self.narrow(e, -INF, 0): return False
        elif op == 'eq0':
            x, k = self.single(c[1])
            if x is None: return False
            if not self.narrow(x, k, k): return False
        elif op == 'not' and c[1][0] == 'eq0':
            x, k = self.single(c[1][1])
            if x is not None:
                self.st.ne[x] = self.st.ne.get(x, frozenset()) | {k}
                if not self.narrow(x, -INF, INF): return False
        elif op == 'v' or (op == 'not' and c[1][0] == 'v'):
            a = c if op == 'v' else c[1]
            self.st.rng[a] = (1, 1) if op == 'v' else (0, 0)
        return True

    # ------------------------------------------------------------ joins
    def split(self, c):
        """(state if c, state if not c); None where impossible."""
        d = self.decide(c)
        if d is True: return self.st, None
        if d is False: return None, self.st
        A = self.st.copy(); B = self.st.copy()
        self.st = A
        okA = self.assume(c, True)
        A.pc = A.pc + ((c, True),)
        self.st = B
        okB = self.assume(c, False)
        B.pc = B.pc + ((c, False),)
        if not okA: B.pc = B.pc[:-1]
        if not okB: A.pc = A.pc[:-1]
        return (A if okA else None), (B if okB else None)

    def join2(self, c, A, B, va=None, vb=None):
        if A is None: return B, vb
        if B is None: return A, va
        n = State()
        k = 0
        while k < len(A.pc) and k < len(B.pc) and A.pc[k] == B.pc[k]: k += 1
        n.pc = A.pc[:k]
        if A.mem is not B.mem:
            ma, mb = A.mem, B.mem
            out = {}
            keys = set(ma) | set(mb)
            for key in keys:
                x = ma.get(key); y = mb.get(key)
                if x is None or y is None:
                    save = self.st
                    if x is None: self.st = A; x = self.load_default(key, y)
                    else: self.st = B; y = self.load_default(key, x)
                    self.st = save
                out[key] = x if x == y else self.merge(c, x, y)
            n.mem = out
        else: n.mem = A.mem
        fb = B.facts
        n.facts = {f: v for f, v in A.facts.items() if fb.get(f) == v}
        for x, r in A.rng.items():
            s = B.rng.get(x)
            if s is None:
                continue
            n.rng[x] = (min(r[0], s[0]), max(r[1], s[1]))
        for x, s in A.ne.items():
            t = B.ne.get(x)
            if t:
                u = s & t
                if u: n.ne[x] = u
        i = 0
        while i < len(A.ev) and i < len(B.ev) and A.ev[i] == B.ev[i]: i += 1
        n.ev = A.ev[:i]
        ra, rb = A.ev[i:], B.ev[i:]
        if ra or rb: n.ev = n.ev + (('gate', c, ra, rb),)
        v = va if va == vb else self.merge(c, va, vb)
        return n, v

    def merge(self, c, a, b):
        if a == b: return a
        if a is None or b is None: return a if b is None else b
        if isinstance(a, tuple) and isinstance(b, tuple) and (a[0] == 'agg' or b[0] == 'agg'):
            pa = dict(a[2]) if a[0] == 'agg' else {}; pb = dict(b[2]) if b[0] == 'agg' else {}
            ba = a[1] if a[0] == 'agg' else a; bb = b[1] if b[0] == 'agg' else b
            out = []
            for p in sorted(set(pa) | set(pb), key=lambda x: (len(x), T.rk(x))):
                x = pa[p] if p in pa else self.project(a, p, None)
                y = pb[p] if p in pb else self.project(b, p, None)
                out.append((p, x if x == y else self.merge(c, x, y)))
            return ('agg', self.merge(c, ba, bb), tuple(out))
        return T.ite(c, a, b)

    def load_default(self, key, other):
        """What a location holds in a state that has no entry for it, typed like the other state's entry."""
        root, path = key
        ty = other[2] if isinstance(other, tuple) and other[0] == 'v' else None
        mem = self.st.mem
        v = None
        for k in range(len(path) - 1, -1, -1):
            if (root, path[:k]) in mem: v = self.project(mem[(root, path[:k])], path[k:], None); break
        if v is None: v = self.initial(root, path, None)
        if isinstance(v, tuple) and v[0] == 'v' and v[2] is None and ty is not None: v = ('v', v[1], ty)
        return v

    def joinmany(self, items):
        """Join states by the decision tree their path conditions form."""
        items = [x for x in items if x[0] is not None]
        if not items: return None, None
        if len(items) == 1: return items[0]
        k = 0
        while all(len(s.pc) > k for s, v in items) and len(set(s.pc[k] for s, v in items)) == 1: k += 1
        first = next((s.pc[k] for s, v in items if len(s.pc) > k), None)
        if first is not None:
            c = first[0]
            A = [x for x in items if len(x[0].pc) > k and x[0].pc[k] == (c, True)]
            B = [x for x in items if len(x[0].pc) > k and x[0].pc[k] == (c, False)]
            R = [x for x in items if x not in A and x not in B]
            if A and B and not R:
                a, va = self.joinmany(A); b, vb = self.joinmany(B)
                return self.join2(c, a, b, va, vb)
            if (A or B) and R:
                a, va = self.joinmany(A + B); b, vb = self.joinmany(R)
                self.nobj += 1
                return self.join2(('v', ('which', self.nobj), 'b'), a, b, va, vb)
        a, va = self.joinmany(items[:1]); b, vb = self.joinmany(items[1:])
        self.nobj += 1
        return self.join2(('v', ('which', self.nobj), 'b'), a, b, va, vb)

    # ------------------------------------------------------------ statements
    def run(self, s):
        if self.st is None or s is None: return
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m: m(s)
        else: self.rv(s)

    def s_block(self, s):
        for x in s['s']:
            if self.st is None: return
            if x is not None: self.run(x)

    s_other = s_block

    def s_null(self, s): pass

    def s_decl(self, s):
        for v in s['v']: self.declare(v)

    def note_width(self, loc, ty):
        t = self.P.ty(ty)
        a = self.aty(ty)
        if a is not None: self.ltype[loc] = a
        if 'w' in t: self.width[loc] = t['w']
        elif t.get('bool'): self.width[loc] = 8
        elif 'elem' in t and 'w' in self.P.ty(t['elem']): self.elemw[loc] = self.P.ty(t['elem'])['w']

    def declare(self, v):
        if self.st is None: return
        if 'st' in v or 'id' not in v:
            return
        loc = (('L', self.frames[-1].no, v['id']), ())
        t = self.P.ty(v['ty'])
        self.note_width(loc, v['ty'])
        if 'bind' in v:
            val = self.rv(v['init']) if 'init' in v else None
            for i, b in enumerate(v['bind']):
                self.st.mem[(('L', self.frames[-1].no, b['id']), ())] = self.project(val, (('b', i),), None) if val is not None else ('v', ('bind', id(v), i), None)
            return
        if 'init' in v:
            if t.get('ref'):
                r = self.lv(v['init'])
                if self.st is not None: self.st.mem[loc] = ('ptr', r[0], r[1]); self._refs.add(loc)
            else:
                val = self.rv(v['init'])
                if self.st is not None: self.store(loc, val)
        else:
            self.store(loc, ('v', ('uninit', v['n'], self.frames[-1].no), self.aty(v['ty'])))

    def s_if(self, s):
        if 'init' in s: self.run(s['init'])
        if 'var' in s: self.declare(s['var'])
        c = self.cond(s['c'])
        if self.st is None: return
        A, B = self.split(c)
        if A is not None:
            self.st = A; self.run(s['t']); A = self.st
        if B is not None:
            self.st = B
            if s.get('e'): self.run(s['e'])
            B = self.st
        self.st, _ = self.join2(c, A, B)

    def s_switch(self, s):
        if 'init' in s: self.run(s['init'])
        if 'var' in s: self.declare(s['var'])
        x = self.rv(s['c'])
        if self.st is None: return
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        # flatten: list of (labels, stmt)
        flat = []
        for st in body:
            labs = []
            while st is not None and st['k'] in ('case', 'default'):
                labs.append(('d',) if st['k'] == 'default' else (st['v'], st.get('v2', st['v'])))
                st = st['s']
            flat.append((labs, st))
        allv = [l for labs, st in flat for l in labs if l != ('d',)]
        lp = Loop(sw=True); self.frames[-1].loops.append(lp)
        rest = self.st      # state in which no label matched so far
        entries = []
        hasd = any(('d',) in labs for labs, st in flat)
        entry = {}
        for i, (labs, st) in enumerate(flat):
            vals = [l for l in labs if l != ('d',)]
            if vals and rest is not None:
                c = 0
                for a, b in vals:
                    a = int(str(a).lstrip('#')); b = int(str(b).lstrip('#'))
                    c = T.bor(c, T.eq(x, a) if a == b else T.band(T.le(a, x), T.le(x, b)))
                self.st = rest
                A, rest = self.split(c)
                entry[i] = (c, A)
        dflt = rest
        cur = None
        for i, (labs, st) in enumerate(flat):
            e = entry.get(i)
            ins = []
            if cur is not None: ins.append((cur, None))
            if e is not None and e[1] is not None: ins.append((e[1], None))
            if ('d',) in labs and dflt is not None: ins.append((dflt, None))
            cur = self.joinmany(ins)[0]
            if cur is not None:
                self.st = cur; self.run(st); cur = self.st
        self.frames[-1].loops.pop()
        outs = [(b, None) for b in lp.breaks]
        if cur is not None: outs.append((cur, None))
        if not hasd and dflt is not None and (isinstance(x, int) or not self.enum_complete(s, allv)): outs.append((dflt, None))
        self.st = self.joinmany(outs)[0]

    def enum_complete(self, s, vals):
        c = s['c']
        while c.get('k') == 'cast': c = c['e']
        o = self.P.enums.get(c.get('ty', '')) or self.P.enums.get((self.P.ty(c.get('ty', '')).get('enum')) or '')
        if not o: return False
        return all(any(a <= e['v'] <= b for a, b in vals if not isinstance(a, str)) for e in o['e'])

    def s_case(self, s): self.run(s['s'])
    def s_default(self, s): self.run(s['s'])
    def s_label(self, s): self.run(s['s'])

    def s_break(self, s):
        self.frames[-1].loops[-1].breaks.append(self.st); self.st = None

    def s_continue(self, s):
        for l in reversed(self.frames[-1].loops):
            if not l.sw: l.conts.append(self.st); break
        self.st = None

    def s_return(self, s):
        v = None
        if s.get('e') is not None:
            if self.P.ty(self.frames[-1].f.get('rt', '')).get('ref'):
                l = self.lv(s['e'])
                v = ('ptr', l[0], l[1]) if self.st is not None else None
            else: v = self.rv(s['e'])
        if self.st is not None: self.frames[-1].rets.append((self.st, v))
        self.st = None

    def s_goto(self, s):
        self.note('goto'); self.st = None

    def s_try(self, s): self.run(s['b'])

    def note(self, what): self.notes[what] = self.notes.get(what, 0) + 1

    # loops
    def s_while(self, s): self.loop(s)
    def s_do(self, s): self.loop(s)

    def s_for(self, s):
        if 'init' in s: self.run(s['init'])
        self.loop(s)

    def s_rangefor(self, s):
        if 'init' in s: self.run(s['init'])
        r = self.lv(s['range'])
        if self.st is None: return
        t = self.P.ty(s['range'].get('ty', ''))
        if t.get('n') is not None and t['n'] <= 64:
            lp = Loop(); self.frames[-1].loops.append(lp)
            for i in range(t['n']):
                if self.st is None: break
                self.bindvar(s['var'], (r[0], r[1] + (('i', i),)))
                self.run(s['b'])
                if lp.conts:
                    self.st = self.joinmany([(x, None) for x in lp.conts] + [(self.st, None)])[0]; lp.conts = []
            self.frames[-1].loops.pop()
            self.st = self.joinmany([(x, None) for x in lp.breaks] + [(self.st, None)])[0]
            return
        self.summarise(s, r)

    def bindvar(self, v, loc):
        l = (('L', self.frames[-1].no, v['id']), ())
        if 'bind' in v:
            for i, b in enumerate(v['bind']):
                self.st.mem[(('L', self.frames[-1].no, b['id']), ())] = ('ptr', loc[0], loc[1] + (('b', i),))
                self._refs.add((('L', self.frames[-1].no, b['id']), ()))
            return
        if self.P.ty(v['ty']).get('ref'): self.st.mem[l] = ('ptr', loc[0], loc[1]); self._refs.add(l)
        else: self.store(l, self.load(loc, v['ty']))

    def loop(self, s):
        """Unroll while the condition is decided, then summarise."""
        lp = Loop(); self.frames[-1].loops.append(lp)
        n = 0
        first = s['k'] == 'do'
        done = []
        while self.st is not None:
            if not first:
                if s.get('c') is not None:
                    before = self.st.copy()
                    nev = self.st.ev
                    self.quiet += 1
                    if 'var' in s: self.declare(s['var'])
                    c = self.cond(s['c'])
                    self.quiet -= 1
                    d = self.decide(c) if self.st is not None else None
                    if self.st is None: break
                    if d is False: done.append((self.st, None)); self.st = None; break
                    if d is None or n > self.unroll:
                        self.st = before
                        self.frames[-1].loops.pop()
                        self.summarise(s, None)
                        if self.st is not None: done.append((self.st, None))
                        self.st = self.joinmany(done + [(b, None) for b in lp.breaks])[0]
                        return
                elif n > self.unroll or not self.frames[-1].loops:
                    break
                elif n > 0 and s.get('c') is None and n > 40:
                    self.frames[-1].loops.pop(); self.summarise(s, None)
                    if self.st is not None: done.append((self.st, None))
                    self.st = self.joinmany(done + [(b, None) for b in lp.breaks])[0]
                    return
            first = False
            n += 1
            if s['k'] == 'do' and n > 1 and False: pass
            self.run(s['b'])
            if lp.conts:
                self.st = self.joinmany([(x, None) for x in lp.conts] + [(self.st, None)])[0]; lp.conts = []
            if self.st is not None and s.get('inc') is not None: self.rv(s['inc'])
            if len(lp.breaks) > 30:      # undecided exits: give up unrolling
                if self.st is not None:
                    self.frames[-1].loops.pop()
                    self.summarise(s, None)
                    if self.st is not None: done.append((self.st, None))
                    self.st = self.joinmany(done + [(b, None) for b in lp.breaks])[0]
                    return
        self.frames[-1].loops.pop()
        self.st = self.joinmany(done + [(b, None) for b in lp.breaks])[0]

    def summarise(self, s, rangeloc):
        self.quiet += 1
        try: self._summarise(s, rangeloc)
        finally: self.quiet -= 1

    def _summarise(self, s, rangeloc):
        self.nloop += 1
        lid = '%s:%s#%d' % (self.frames[-1].f['name'], s['l'], sum(1 for f in self.frames if f.f is self.frames[-1].f))
        entry = self.st
        M = {}
        nrets = len(self.frames[-1].rets)
        for rnd in range(6):
            self.st = entry.copy()
            self.st.ev = ()
            del self.frames[-1].rets[nrets:]
            for loc, ty in sorted(M.items(), key=lambda x: T.rk(x[0])):
                if isinstance(ty, tuple) and ty[0] == 'ptr': self.store(loc, ('ptr', ty[1], ty[2] + (('i', ('v', ('lv', lid, loc), (64, False))),)))
                else: self.store(loc, ('v', ('lv', lid, loc), ty))
            head = self.st.copy()
            lp = Loop(); self.frames[-1].loops.append(lp)
            exits = []
            c = 1
            if rangeloc is not None:
                # number of iterations unknown: the element is the one at an unknown position
                c = ('v', ('more', lid), 'b')
                ex = self.st.copy()
                exits.append((ex, None))
                it = ('i', ('v', ('iter', lid), (64, False)))
                self.bindvar(s['var'], (rangeloc[0], rangeloc[1] + (it,)))
                self.st.pc = self.st.pc + ((c, True),); exits[0][0].pc = exits[0][0].pc + ((c, False),)
            elif s.get('c') is not None:
                if 'var' in s: self.declare(s['var'])
                c = self.cond(s['c'])
                if self.st is not None:
                    A, B = self.split(c)
                    if B is not None: exits.append((B, None))
                    self.st = A
            start = self.st
            if self.st is not None: self.run(s['b'])
            self.st = self.joinmany([(x, None) for x in lp.conts] + [(self.st, None)])[0]
            if self.st is not None and s.get('inc') is not None: self.rv(s['inc'])
            end = self.st
            self.frames[-1].loops.pop()
            # what did the body change?
            ch = {}
            for e in [end] if end is not None else []:
                for key in set(e.mem) | set(head.mem):
                    if key[0][0] in 'LT' and key not in head.mem and not any((key[0], key[1][:i]) in head.mem for i in range(len(key[1]))) : continue
                    x = e.mem.get(key); y = head.mem.get(key)
                    if x == y: continue
                    if y is None:
                        save = self.st; self.st = head; y = self.load_default(key, x); self.st = save
                    if x is None: ch[key] = None
                    elif x != y:
                        ty = self.loc_type(key)
                        for z in (y, x) if ty is None else ():
                            if isinstance(z, tuple) and z[0] == 'v' and z[2]: ty = z[2]; break
                            if isinstance(z, tuple) and z[0] == 'wrap': ty = (z[1], z[2]); break
                        if ixptr(x) and ixptr(y) and x[1] == y[1] and x[2][:-1] == y[2][:-1]: ty = ('ptr', x[1], x[2][:-1])
                        if ty is None and isinstance(y, int) and isinstance(x, int) or ty is None and (isinstance(x, int) or T.is_bool(x)): ty = self.loc_type(key)
                        ch[key] = ty if ty is not None else self.loc_type(key)
            new = {k: t for k, t in ch.items() if k not in M}
            if not new: break
            M.update(new)
        ev = {'id': lid, 'line': s['l'], 'kind': s['k'], 'cond': c, 'range': None, 'entry': {}, 'head': {}, 'end': {},
              'breaks': tuple(b.ev for b in lp.breaks), 'body': end.ev if end is not None else None}
        for k in M:
            save = self.st
            self.st = entry; ev['entry'][k] = self.load(k)
            ev['head'][k] = head.mem.get(k)
            if end is not None: self.st = end; ev['end'][k] = self.load(k)
            self.st = save
        if rangeloc is not None:
            self.st = entry; ev['range'] = self.load(rangeloc); ev['rangeloc'] = rangeloc
        ev['left'] = tuple((x[0].ev, x[1]) for x in self.frames[-1].rets[nrets:])
        ev['nbreaks'] = len(lp.breaks)
        self.lastloop = ev
        pre = entry.ev
        loopev = (('loop', Frozen(ev)),) if (end is None or end.ev or any(b.ev for b in lp.breaks) or True) else ()
        outs = []
        for x, _ in exits:
            x.ev = pre + loopev + x.ev; x.pc = entry.pc
            outs.append((x, None))
        for b in lp.breaks:
            b.ev = pre + loopev + (('broke', lid),) + b.ev; b.pc = entry.pc
            outs.append((b, None))
        rets = self.frames[-1].rets
        for i in range(nrets, len(rets)):
            st, v = rets[i]
            st.ev = pre + loopev + (('left', lid),) + st.ev
            st.pc = entry.pc + ((('v', ('leave', lid, i - nrets), 'b'), True),)
            for x, _ in outs: x.pc = entry.pc + ((('v', ('leave', lid, i - nrets), 'b'), False),)
        self.st = self.joinmany(outs)[0]
        if self.st is not None: self.st.pc = outs[0][0].pc if len(outs) == 1 else self.st.pc

    def loc_type(self, key):
        return self.ltype.get(key)

    # ------------------------------------------------------------ conditions
    def cond(self, e):
        """Boolean term of an expression; short-circuit operands with effects are interpreted under their guard."""
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            a = self.cond(e['a'])
            if self.st is None: return 0
            A, B = self.split(a)
            if e['op'] == '&&':
                va, vb = None, 0
                if A is not None:
                    self.st = A; va = self.cond(e['b']); A = self.st
            else:
                va, vb = 1, None
                if B is not None:
                    self.st = B; vb = self.cond(e['b']); B = self.st
            self.st, v = self.join2(a, A, B, va, vb)
            return v if v is not None else 0
        if k == 'un' and e['op'] == '!': return T.bnot(self.cond(e['e']))
        v = self.rv(e)
        if v is None: return 0
        if self.st is not None and isinstance(v, tuple): v = self.fix(v)
        return T.truth(v)

    # ------------------------------------------------------------ lvalues
    def lv(self, e):
        if self.st is None: return (('X', 'dead'), ())
        k = e['k']
        if k == 'ref':
            dk = e.get('dk')
            if dk in ('local', 'parm'):
                loc = self.local(e['id'])
                if self.isref(loc, e): 
                    p = self.st.mem[loc]
                    return (p[1], p[2])
                return loc
            if dk == 'global': return (('G', e['q']), ())
            if dk == 'func': return (('F', e['fn']), ())
        if k == 'mem':
            if e.get('arrow'): r = self.deref(self.rv(e['b']))
            else: r = self.lv(e['b'])
            loc = (r[0], r[1] + ((e['n'] or e['q']),))
            if loc in self._refs and loc in self.st.mem:
                p = self.st.mem[loc]
                if isinstance(p, tuple) and p[0] == 'ptr': return (p[1], p[2])
            elif e.get('q') in self.reffields:
                p = self.load(loc, None)
                if isinstance(p, tuple) and p[0] == 'ptr': return (p[1], p[2])
            return loc
        if k == 'idx':
            bt = self.P.ty(e['b'].get('ty', ''))
            if 'elem' in bt: r = self.lv(e['b']); r = (r[0], r[1] + (('i', 0),))
            else: r = self.deref_elem(self.rv(e['b']))
            i = self.rv(e['i'])
            return self.offset(r, i)
        if k == 'un' and e['op'] == '*':
            return self.deref(self.rv(e['e']))
        if k == 'un' and e['op'] in ('pre++', 'pre--'):
            self.rv(e); return self.lv(e['e'])
        if k == 'asg':
            self.rv(e); return self.lv(e['a'])
        if k == 'this': return self.frames[-1].this
        if k == 'cast' and e.get('ck') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'Dynamic', 'LValueToRValue', 'BitCast'):
            if 'ptr' in self.P.ty(e.get('ty', '')): return self.temp(self.rv(e))
            return self.lv(e['e'])
        if k == 'cond':
            c = self.cond(e['c'])
            d = self.decide(c)
            if d is not None: return self.lv(e['t'] if d else e['e'])
            A, B = self.split(c)
            self.st = A; a = self.lv(e['t']); A = self.st
            self.st = B; b = self.lv(e['e']); B = self.st
            self.st, v = self.join2(c, A, B, ('ptr',) + tuple(a), ('ptr',) + tuple(b))
            if isinstance(v, tuple) and v[0] == 'ptr': return (v[1], v[2])
            return (('D', v), ())
        if k == 'call':
            v = self.call(e, want_lv=True)
            if isinstance(v, tuple) and v and v[0] == 'LOC': return v[1]
            if self.P.ty(e.get('rt', '')).get('ref'): return self.deref(v)
            return self.temp(v)
        if k == 'str': return (('S', e['v']), ())
        if k == 'bin' and e['op'] == ',':
            self.rv(e['a']); return self.lv(e['b'])
        return self.temp(self.rv(e))

    def temp(self, v):
        self.nobj += 1
        loc = (('T', self.nobj), ())
        if self.st is not None and v is not None: self.store(loc, v)
        return loc

    def local(self, lid):
        # lambdas see the locals of the function that creates them
        for f in reversed(self.frames):
            loc = (('L', f.no, lid), ())
            if loc in self.st.mem or any(k[0] == loc[0] for k in self.st.mem): return loc
        return (('L', self.frames[-1].no, lid), ())

    def isref(self, loc, e):
        v = self.st.mem.get(loc)
        if not (isinstance(v, tuple) and v[0] == 'ptr'): return False
        # a pointer variable also holds a 'ptr' value; the type of the reference expression tells them apart
        return loc in self.refs()

    def refs(self): return self._refs

    def offset(self, r, i):
        root, path = r
        if path and isinstance(path[-1], tuple) and path[-1][0] == 'i':
            return (root, path[:-1] + (('i', T.add(path[-1][1], i)),))
        if i == 0: return r
        return (root, path + (('i', i),))

    def deref_elem(self, v):
        r = self.deref(v)
        if r[1] and isinstance(r[1][-1], tuple) and r[1][-1][0] == 'i': return r
        return (r[0], r[1] + (('i', 0),))

    # ------------------------------------------------------------ rvalues
    def rv(self, e):
        if self.st is None: return 0
        k = e['k']
        cv = e.get('cv')
        if cv is not None and k in ('int', 'ref', 'cast', 'bin', 'un', 'cond'):
            return int(cv[1:]) if isinstance(cv, str) else cv
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.note('expr ' + k)
            return ('v', ('?', k, e.get('l')), self.aty(e.get('ty', '')))
        return m(e)

    def e_int(self, e):
        v = e.get('v', 0)
        return int(v[1:]) if isinstance(v, str) else int(v)

    def e_float(self, e): return ('flt', e['v'])
    def e_str(self, e): return ('ptr', ('S', e['v']), (('i', 0),))
    def e_nullptr(self, e): return 0
    def e_zero(self, e): return 0
    def e_this(self, e):
        t = self.frames[-1].this
        return ('ptr', t[0], t[1])

    def e_ref(self, e):
        if e.get('dk') == 'enum': return e.get('cv', ('v', ('enum', e['q']), (32, True)))
        if e.get('dk') == 'func': return ('ptr', ('F', e['fn']), ())
        return self.read(e)

    def read(self, e):
        loc = self.lv(e)
        if self.st is None: return 0
        ty = e.get('ty', '')
        if 'elem' in self.P.ty(ty):
            return ('ptr', loc[0], loc[1] + (('i', 0),))
        v = self.load(loc, ty)
        if isinstance(v, tuple) and v[0] == 'v' and v[2] is None:
            a = self.aty(ty)
            if a is not None: v = ('v', v[1], a)
            v = self.fix(v)
        return v

    e_mem = read
    e_idx = read

    def e_init(self, e):
        ty = e.get('ty', ''); t = self.P.ty(ty)
        out = []
        if 'elem' in t:
            for i, x in enumerate(e['a']):
                v = self.rv(x)
                if 'elem' in self.P.ty(x.get('ty', '')) and isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'S': v = ('str', v[1][1])
                out.append(((('i', i),), v))
            return self.flat(0, out)
        rec = t.get('rec')
        if rec in self.P.rec:
            fs = [f for f in self.P.rec[rec]['fields'] if not f.get('static')]
            a = e['a']
            nb = len(a) - len(fs)
            for i, x in enumerate(a):
                v = self.rv(x)
                if i < nb: continue
                f = fs[i - nb]
                if 'elem' in self.P.ty(f['ty']) and isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'S': v = ('str', v[1][1])
                out.append((((f['n'] or f['q']),), v))
            return self.flat(0, out)
        if len(e['a']) == 1 and not rec: return self.rv(e['a'][0])
        if not e['a'] and not rec: return 0
        vs = tuple(self.rv(x) for x in e['a'])
        return ('agg', ('v', ('init', rec), None), tuple(((('i', i),), v) for i, v in enumerate(vs)))

    def flat(self, base, items):
        out = []
        for p, v in items:
            if isinstance(v, tuple) and v[0] == 'agg':
                out.append((p, v[1]))
                for q, w in v[2]: out.append((p + tuple(q), w))
            else: out.append((p, v))
        return ('agg', base, tuple(out))

    def conv(self, v, ty):
        """Convert a number to an integer type."""
        if self.st is None: return 0
        t = self.aty(ty)
        if t == 'b': return T.truth(v) if not (isinstance(v, tuple) and v[0] == 'agg') else v
        if isinstance(t, tuple):
            if isinstance(v, tuple) and v[0] in ('ptr', 'agg', 'str'): return v
            return T.wrap(t[0], t[1], v, self.st.rng)
        return v

    def e_cast(self, e):
        ck = e.get('ck')
        ty = e.get('ty', '')
        if ck in ('NullToPointer',): return 0
        if ck == 'ToVoid': self.rv(e['e']); return 0
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'): return self.cond(e['e'])
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            return self.conv(self.rv(e['e']), ty)
        if ck in ('IntegralToFloating', 'FloatingCast'):
            v = self.rv(e['e'])
            if isinstance(v, int): return ('flt', float(v))
            return ('v', ('float', v, self.P.ty(ty).get('fl')), 'f') if not (isinstance(v, tuple) and v[0] == 'flt') else v
        if ck == 'FloatingToIntegral':
            v = self.rv(e['e'])
            return ('v', ('toint', v, ty), self.aty(ty))
        if ck in ('Dynamic', 'BaseToDerived') and 'ptr' in self.P.ty(ty):
            return self.rv(e['e'])
        v = self.rv(e['e'])
        t = self.aty(ty)
        if isinstance(t, tuple) and isinstance(v, (int, tuple)) and ck not in ('PointerToIntegral',): return self.conv(v, ty)
        return v

    def e_un(self, e):
        op = e['op']; ty = e.get('ty', '')
        if op == '!': return self.cond(e)
        if op == '&':
            l = self.lv(e['e'])
            if l[1] and False: pass
            return ('ptr', l[0], l[1])
        if op == '*': return self.read(e)
        if op in ('pre++', 'pre--', 'post++', 'post--'):
            loc = self.lv(e['e'])
            ety = e['e'].get('ty', '')
            old = self.load(loc, ety)
            if isinstance(old, tuple) and old[0] == 'v' and old[2] is None: old = ('v', old[1], self.aty(ety))
            d = 1 if '+' in op else -1
            new = self.addptr(old, d, ety) if 'ptr' in self.P.ty(ety) else self.conv(T.add(old, d), ety)
            self.store(loc, new)
            return new if op.startswith('pre') else old
        v = self.rv(e['e'])
        if isinstance(v, tuple) and v[0] == 'flt' and op == '-': return ('flt', -v[1])
        if self.aty(ty) == 'f': return ('v', ('app', 'f' + op, v), 'f')
        if op == '-': return self.conv(T.neg(v), ty)
        if op == '+': return v
        if op == '~': return self.conv(T.sub(-1, v), ty)
        return ('v', ('app', op, v), self.aty(ty))

    def addptr(self, p, n, ty):
        if isinstance(p, tuple) and p[0] == 'ite': return T.ite(p[1], self.addptr(p[2], n, ty), self.addptr(p[3], n, ty))
        r = self.deref_elem(p)
        r = self.offset(r, n)
        if r[0][0] == 'D' and r[1] == (('i', 0),): return r[0][1]
        return ('ptr', r[0], r[1])

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'): return self.cond(e)
        if op == ',':
            self.rv(e['a']); return self.rv(e['b'])
        a = self.rv(e['a']); b = self.rv(e['b'])
        if self.st is None: return 0
        return self.arith(op, a, b, e['a'].get('ty', ''), e['b'].get('ty', ''), e.get('ty', ''), e)

    def arith(self, op, a, b, ta, tb, ty, e=None):
        if isinstance(a, tuple): a = self.fix(a)
        if isinstance(b, tuple): b = self.fix(b)
        fl = 'fl' in self.P.ty(ta) or 'fl' in self.P.ty(tb)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if fl:
                if isinstance(a, tuple) and a[0] == 'flt' and isinstance(b, tuple) and b[0] == 'flt':
                    x, y = a[1], b[1]
                    return int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
                return ('v', ('app', 'f' + op, a, b), 'b')
            if op == '==': return T.eq(a, b)
            if op == '!=': return T.bnot(T.eq(a, b))
            if any(isinstance(x, tuple) and x[0] in ('ptr', 'str', 'agg') for x in (a, b)):
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'ptr' and a[1] == b[1] and a[2][:-1] == b[2][:-1] and a[2] and isinstance(a[2][-1], tuple):
                    a, b = a[2][-1][1], b[2][-1][1]
                else: return ('v', ('app', op, a, b), 'b')
            return {'<': T.lt(a, b), '>': T.lt(b, a), '<=': T.le(a, b), '>=': T.le(b, a)}[op]
        if 'ptr' in self.P.ty(ty) or (isinstance(a, tuple) and a[0] == 'ptr' and op in '+-'):
            if isinstance(a, tuple) and a[0] == 'ptr' and isinstance(b, tuple) and b[0] == 'ptr' and op == '-':
                if a[1] == b[1] and a[2][:-1] == b[2][:-1] and a[2] and isinstance(a[2][-1], tuple): return T.sub(a[2][-1][1], b[2][-1][1])
                return ('v', ('app', 'pdiff', a, b), (64, True))
            if op == '+':
                if isinstance(b, tuple) and b[0] == 'ptr': a, b = b, a
                return self.addptr(a, b, ty)
            if op == '-' and 'ptr' in self.P.ty(ty): return self.addptr(a, T.neg(b), ty)
        if fl or self.aty(ty) == 'f': return ('v', ('app', 'f' + op, a, b), 'f')
        if any(isinstance(x, tuple) and x[0] in ('ptr', 'str', 'agg', 'flt') for x in (a, b)):
            return ('v', ('app', op, a, b), self.aty(ty))
        r = T.binop(op, a, b, self.st.rng)
        return self.conv(r, ty) if self.aty(ty) is not None else r

    def e_asg(self, e):
        op = e['op']
        if op == '=':
            v = self.rv(e['b'])
            loc = self.lv(e['a'])
        else:
            b = self.rv(e['b'])
            loc = self.lv(e['a'])
            if self.st is None: return 0
            aty = e['a'].get('ty', '')
            a = self.load(loc, aty)
            if isinstance(a, tuple) and a[0] == 'v' and a[2] is None: a = self.fix(('v', a[1], self.aty(aty)))
            v = self.arith(op[:-1], a, b, aty, e['b'].get('ty', ''), e.get('cty', aty))
            v = self.conv(v, aty) if self.aty(aty) else v
        if self.st is None: return 0
        if e['a'].get('bits'):
            t = self.aty(e['a'].get('ty', ''))
            if isinstance(t, tuple): v = T.wrap(e['a']['bits'], t[1], v, self.st.rng)
        self.store(loc, v)
        return v

    def e_cond(self, e):
        c = self.cond(e['c'])
        if self.st is None: return 0
        A, B = self.split(c)
        a = b = None
        if A is not None: self.st = A; a = self.rv(e['t']); A = self.st
        if B is not None: self.st = B; b = self.rv(e['e']); B = self.st
        self.st, v = self.join2(c, A, B, a, b)
        return v if v is not None else 0

    def e_lambda(self, e): return ('ptr', ('F', e['fn']), ())
    def e_memfn(self, e): return ('ptr', ('F', e['fn']), ())

    def e_throw(self, e):
        self.st = None
        return 0

    def e_delete(self, e):
        self.rv(e['e']); return 0

    def e_new(self, e):
        self.nobj += 1
        root = ('N', self.nobj)
        if e.get('init') and e['init'].get('k') == 'ctor':
            self.construct(e['init'], (root, ()))
        return ('ptr', root, (('i', 0),) if 'n' in e else ())

    def e_typeid(self, e): return ('v', ('typeid', e.get('l')), None)

    def e_other(self, e):
        for x in e.get('s', ()):
            if x is not None: self.rv(x)
        return ('v', ('other', e.get('cls'), e.get('l')), self.aty(e.get('ty', '')))

    # ------------------------------------------------------------ calls
    def e_ctor(self, e):
        ty = self.P.ty(e.get('ty', ''))
        a = e['args']
        if e.get('cp') in ('copy', 'move') and len(a) >= 1 or e.get('elide') and len(a) == 1:
            h = self.hooks.get(e.get('fn')) or self.hooks.get(e.get('name'))
            return self.rv(a[0])
        if ty.get('rec') in PTRS:
            if not a: return 0
            return self.rv(a[0])
        self.nobj += 1
        loc = (('T', self.nobj), ())
        self.construct(e, loc)
        if self.st is None: return 0
        return self.load(loc, None)

    def construct(self, e, loc):
        fid = e['fn']
        h = self.hooks.get(fid) or self.hooks.get(e.get('name'))
        if h:
            r = h(self, e, loc)
            if r is not NotImplemented:
                if self.st is not None and r is not None: self.store(loc, r)
                return
        f = self.P.fn.get(fid)
        rec = self.P.ty(e.get('ty', '')).get('rec')
        if e.get('cp') in ('copy', 'move') and e['args']:
            self.store(loc, self.rv(e['args'][0])); return
        if f is not None and self.may_inline(fid):
            self.invoke(fid, e['args'], loc, e)
            return
        vs = tuple(self.rv(x) for x in e['args'])
        if self.st is None: return
        if rec == 'std::vector' or rec == 'std::basic_string' or (rec or '').startswith('std::'):
            if rec in ('std::basic_string', 'std::basic_string_view') and len(vs) == 2 and isinstance(vs[1], tuple) and vs[1][0] == 'v' and vs[1][1] == ('empty', 'std::allocator'): vs = vs[:1]
            if not vs: v = ('v', ('empty', rec), None)
            elif rec in ('std::basic_string', 'std::basic_string_view') and len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][0] == 'str': v = vs[0]
            elif rec in ('std::basic_string', 'std::basic_string_view') and len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][0] == 'ptr' and vs[0][1][0] == 'S' and vs[0][2] and isinstance(vs[0][2][0], tuple) and isinstance(vs[0][2][0][1], int): v = ('str', vs[0][1][1][vs[0][2][0][1]:])
            elif len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][0] == 'ptr' and vs[0][1][0] == 'S': v = ('str', vs[0][1][1])
            elif rec in ('std::optional', 'std::basic_string_view') and len(vs) == 1: v = ('v', ('app', rec, vs[0]), None)
            else: v = ('v', ('app', rec, vs), None)
        else:
            self.nobj += 1
            v = ('v', ('made', rec, vs), None)
        self.store(loc, v)

    def may_inline(self, fid):
        if len(self.active) > MAXDEPTH or self.active.count(fid) > 0: return False
        if self.inline is not None and not self.inline(fid): return False
        return True

    def invoke(self, fid, args, this, node):
        """Interpret a function of the program in place; returns its value."""
        f = self.P.fn[fid]
        vals = []
        for p, a in zip(f['params'], args):
            t = self.P.ty(p['ty'])
            if t.get('ref'):
                l = self.lv(a)
                vals.append((p, True, ('ptr', l[0], l[1])))
            else:
                v = self.rv(a)
                if self.aty(p['ty']) and isinstance(v, (int, tuple)) and not (isinstance(v, tuple) and v[0] in ('ptr', 'agg', 'str', 'flt')): v = self.conv(v, p['ty']) if self.aty(p['ty']) != 'f' else v
                vals.append((p, False, v))
            if self.st is None: return 0
        return self.enter(fid, vals, this, node)

    def enter(self, fid, vals, this, node):
        f = self.P.fn[fid]
        self.nframe += 1
        fr = Frame(f, self.nframe, this)
        self.frames.append(fr); self.active.append(fid)
        pc0 = self.st.pc
        try:
            for p, isr, v in vals:
                loc = (('L', fr.no, p['id']), ())
                if not isr: self.note_width(loc, p['ty'])
                if isr:
                    self.st.mem[loc] = v; self._refs.add(loc)
                else: self.store(loc, v)
            for i in f.get('inits', ()):
                if 'e' not in i or self.st is None: continue
                if i.get('base'):
                    if i['e'].get('k') == 'ctor': self.construct(i['e'], this)
                    continue
                tgt = (this[0], this[1] + ((i['n'] or i['f']),))
                if i['e'].get('k') == 'ctor' and self.P.ty(i['e'].get('ty', '')).get('rec') not in PTRS: self.construct(i['e'], tgt)
                else:
                    if self.P.ty(i.get('ty', '')).get('ref'):
                        l = self.lv(i['e'])
                        if self.st is not None: self.st.mem[tgt] = ('ptr', l[0], l[1]); self._refs.add(tgt)
                    else:
                        v = self.rv(i['e'])
                        if self.st is not None: self.store(tgt, v)
            if f.get('body') is not None: self.run(f['body'])
            if self.st is not None: fr.rets.append((self.st, None))
            if fid == self.dropnull: fr.rets = [(s, v) for s, v in fr.rets if v != 0]
            self.st, v = self.joinmany(fr.rets)
            if self.st is not None:
                # locals of the callee die
                dead = [k for k in self.st.mem if k[0][0] == 'L' and k[0][1] == fr.no]
                for k in dead: del self.st.mem[k]
            return v if v is not None else 0
        finally:
            self.frames.pop(); self.active.pop()

    def declare_ref(self, loc): self._refs.add(loc)

    def obj_loc(self, n):
        o = n['obj']
        if n.get('arrow') or 'ptr' in self.P.ty(o.get('ty', '')): return self.deref(self.rv(o))
        return self.lv(o)

    def e_call(self, n):
        v = self.call(n)
        if isinstance(v, tuple) and v and v[0] == 'LOC':
            return self.load_typed(v[1], n.get('ty', ''))
        if self.st is not None and self.P.ty(n.get('rt', '')).get('ref') and v is not None:
            # value of the object a returned reference denotes
            loc = self.deref(v)
            return self.load_typed(loc, n.get('ty', ''))
        return v if v is not None else 0

    def load_typed(self, loc, ty):
        if 'elem' in self.P.ty(ty): return ('ptr', loc[0], loc[1] + (('i', 0),))
        v = self.load(loc, ty)
        if isinstance(v, tuple) and v[0] == 'v' and v[2] is None and self.aty(ty) is not None: v = self.fix(('v', v[1], self.aty(ty)))
        return v

    def call(self, n, want_lv=False):
        name = n.get('name', '')
        h = self.hooks.get(n.get('fn')) or self.hooks.get(name)
        if h:
            r = h(self, n, want_lv)
            if r is not NotImplemented: return r
        if name in ('std::move', 'std::forward', 'std::as_const', 'std::addressof') and n['args']:
            return ('LOC', self.lv(n['args'][0]))
        op = n.get('op'); cls = n.get('cls') or ''
        obj = n.get('obj')
        if op is None and obj is not None and tail(name) == 'operator=': op = '='
        if obj is not None and ('ptr' in cls or cls in PTRS or 'optional' in cls) and (op in ('->', '*') or tail(name) in ('get', 'operator->', 'operator*', 'value')):
            l = self.obj_loc(n) if not (op or True) else self.lv(obj) if 'ptr' not in self.P.ty(obj.get('ty', '')) else self.deref(self.rv(obj))
            if 'optional' in cls:
                return ('LOC', (l[0], l[1] + ('value',)))
            v = self.load(l, None)
            if op == '*': return ('LOC', self.deref(v))
            return v
        if obj is not None and ('ptr' in cls) and tail(name) in ('operator bool', 'operator conversion'):
            return T.bnot(T.eq(self.load(self.lv(obj), None), 0))
        if op in ('==', '!=') and name.startswith('std::') and len(n['args']) == 2 and obj is None:
            a, b = self.rv(n['args'][0]), self.rv(n['args'][1])
            r = T.eq(a, b) if not (a == 0 and b == 0) else 1
            return r if op == '==' else T.bnot(r)
        if obj is not None and ('ptr' in cls) and op == '=':
            v = self.rv(n['args'][0]); l = self.lv(obj)
            if self.st is not None: self.store(l, v)
            return ('LOC', l)
        if op == '=' and obj is not None and n.get('fn') not in self.P.fn or op == '=' and obj is not None and (self.P.fn.get(n.get('fn'), {}).get('defaulted') or self.P.fn.get(n.get('fn'), {}).get('implicit')):
            v = self.rv(n['args'][0]); l = self.lv(obj)
            if self.st is not None:
                if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'S': v = ('str', v[1][1])
                self.store(l, v)
            return ('LOC', l)
        if name in ('__builtin_bswap16', '__builtin_bswap32', '__builtin_bswap64') and n['args']:
            w = int(name[-2:]); v = self.rv(n['args'][0]); r = 0
            for i in range(w // 8): r = T.binop('|', r, T.binop('<<', T.wrap(8, False, T.binop('>>', v, 8 * i)), w - 8 - 8 * i))
            return r
        if name == 'std::swap' and len(n['args']) == 2:
            la, lb = self.lv(n['args'][0]), self.lv(n['args'][1])
            if self.st is None: return 0
            a, b = self.load(la, None), self.load(lb, None)
            self.store(la, b); self.store(lb, a)
            return 0
        if name in ('std::make_unique', 'std::make_shared'):
            return self.make(n)
        if name in ('abs', 'std::abs', 'labs', 'llabs') and n['args']:
            v = self.rv(n['args'][0])
            if 'fl' in self.P.ty(n.get('ty', '')): return ('v', ('app', 'fabs', v), 'f')
            return T.absv(v)
        if name in ('std::min', 'std::max') and len(n['args']) == 2:
            la, lb = self.lv(n['args'][0]), self.lv(n['args'][1])
            if self.st is None: return 0
            ty = n.get('ty', '')
            a, b = self.load_typed(la, ty), self.load_typed(lb, ty)
            if 'fl' in self.P.ty(ty): return ('LOC', self.temp(('v', ('app', name, a, b), 'f')))
            # std::min(a,b): b < a ? b : a
            c = T.lt(b, a) if name == 'std::min' else T.lt(a, b)
            d = self.decide(c)
            return ('LOC', self.temp((b if d else a) if d is not None else T.ite(c, b, a)))
        tg = self.P.targets(n)
        if 'fx' in n:
            fv = self.rv(n['fx'])
            if isinstance(fv, tuple) and fv[0] == 'ptr' and fv[1][0] == 'F' and fv[1][1] in self.P.fn: tg = [fv[1][1]]
        if n.get('virt') and obj is not None and len(tg) != 1:
            l = self.obj_loc(n)
            if self.st is None: return 0
            c = self.dyn.get(l[0]) if not l[1] else self.dyn.get(l)
            if c:
                tg2 = self.dispatch(n['fn'], c)
                if tg2: tg = [tg2]
            if len(tg) == 1 and self.may_inline(tg[0]):
                return self.invoke(tg[0], n['args'], l, n)
            return self.opaque(n, tg, l)
        if len(tg) == 1 and self.may_inline(tg[0]):
            this = None
            if 'lambda' in self.P.fn[tg[0]].get('name', ''): this = self.frames[-1].this      # what it captures belongs to the caller
            elif obj is not None:
                this = self.obj_loc(n)
            if self.st is None: return 0
            return self.invoke(tg[0], n['args'], this, n)
        l = self.obj_loc(n) if obj is not None else None
        if self.st is None: return 0
        return self.opaque(n, tg, l)

    def make(self, n):
        """make_unique / make_shared: a new object built by the constructor the arguments select."""
        t = self.P.ty(n.get('rt', '') or n.get('ty', ''))
        rec = self.P.ty((t.get('targs') or [''])[0]).get('rec')
        self.nobj += 1
        root = ('N', self.nobj)
        if rec: self.dyn[root] = rec
        c = []
        for m in self.P.rec.get(rec, {}).get('methods', ()):
            f = self.P.fn.get(m['id'])
            if f is None or not f.get('ctor') or len(f['params']) < len(n['args']): continue
            if len(f['params']) == 1 and self.P.ty(f['params'][0]['ty']).get('rec') == rec: continue
            if len(f['params']) > len(n['args']) and not all(p.get('def') for p in f['params'][len(n['args']):]): continue
            c.append(m['id'])
        h = self.hooks.get('make')
        if h: h(self, n, rec, root)
        if len(c) > 1:
            # by parameter types
            def score(fid):
                s = 0
                for p, a in zip(self.P.fn[fid]['params'], n['args']):
                    pt = self.P.ty(p['ty']); at = self.P.ty(strip(a).get('ty', ''))
                    if (pt.get('rec') or pt.get('enum')) == (at.get('rec') or at.get('enum')): s += 1
                return s
            c.sort(key=score, reverse=True)
            if score(c[0]) == score(c[1]): c = []
        if c and self.may_inline(c[0]) and len(self.P.fn[c[0]]['params']) == len(n['args']):
            self.invoke(c[0], n['args'], (root, ()), n)
        else:
            vs = tuple(self.rv(a) for a in n['args'])
            if self.st is not None: self.store((root, ()), ('v', ('made', rec, vs), None))
        return ('ptr', root, ())

    def dispatch(self, fid, cls):
        """Final overrider of a method in a class."""
        seen = set(); todo = [cls]
        cands = self.P.over.get(fid, {fid})
        while todo:
            c = todo.pop(0)
            if c in seen: continue
            seen.add(c)
            for m in cands:
                if self.P.method_cls.get(m) == c and m in self.P.fn: return m
            todo += self.P.rec.get(c, {}).get('bases', [])
        return None

    def opaque(self, n, tg, objloc):
        """A call whose body is not interpreted: result unknown, effects from the effect summaries."""
        name = n.get('name', '?'); pm = n.get('pm', '')
        vals = []; locs = []
        for i, a in enumerate(n['args']):
            m = pm[i] if i < len(pm) else 'v'
            if m in 'nc':
                l = self.lv(a); locs.append((i, m, l))
                vals.append(self.load(l, None) if self.st is not None else 0)
            elif m in 'qp':
                v = self.rv(a)
                if isinstance(v, tuple) and v[0] == 'ptr': locs.append((i, 'n' if m == 'q' else 'c', (v[1], v[2])))
                vals.append(v)
            else: vals.append(self.rv(a))
            if self.st is None: return 0
        ov = self.load(objloc, None) if objloc is not None else None
        t = tail(name)
        aty = self.aty(n.get('ty', ''))
        vals = tuple(vals)
        if not tg:
            # library
            if t == 'size' or t == 'length':
                return self.size_of(ov)
            if t == 'empty': return T.eq(self.size_of(ov), 0)
            if t == 'clear' and objloc is not None:
                self.store(objloc, ('v', ('empty', n.get('cls')), None)); return 0
            if t in ('c_str', 'data') and isinstance(ov, tuple) and ov[0] == 'str': return ('ptr', ('S', ov[1]), (('i', 0),))
            if n.get('op') == '[]' or t in ('at', 'front', 'back'):
                i = vals[0] if vals else (0 if t == 'front' else ('v', ('last',), (64, False)))
                return ('LOC', (objloc[0], objloc[1] + (('i', i),)))
            res = ('v', ('app', name, ov, vals), aty)
            if objloc is not None and not n.get('cm') and t not in ('begin', 'end', 'find', 'rbegin', 'rend', 'get', 'front', 'back', 'lower_bound', 'upper_bound', 'equal_range'):
                self.nobj += 1
                self.store(objloc, ('v', ('mut', t, ov, vals), None))
            for i, m, l in locs:
                if m == 'n':
                    self.store(l, ('v', ('out', name, i, ov, vals), None))
            return res
        # program functions
        self.note('opaque ' + name)
        self.nobj += 1
        touched = False
        if self.E is not None:
            for f in tg:
                for l in self.E.W.get(f, ()):
                    r, p = l
                    p = tuple(tail(x) if isinstance(x, str) else x for x in p)
                    if r[0] == 'G': self.havoc((r, self.clean(p)), name); touched = True
                    elif r[0] == 'T' and objloc is not None:
                        self.havoc((objloc[0], objloc[1] + self.clean(p)), name); touched = True
                    elif r[0] == 'P':
                        for i, m, lc in locs:
                            if i == r[1]: self.havoc((lc[0], lc[1] + self.clean(p)), name); touched = True
        return ('v', ('app', name, ov, vals, self.nobj if touched or not n.get('cm') else 0), aty)

    def clean(self, p):
        out = []
        for x in p:
            if not isinstance(x, str) or x in ('*', '[]', '<>', '->'): break
            out.append(x)
        return tuple(out)

    def size_of(self, v):
        if isinstance(v, tuple):
            if v[0] == 'str': return len(v[1].encode('latin-1', 'replace'))
            if v[0] == 'ite': return T.ite(v[1], self.size_of(v[2]), self.size_of(v[3]))
            if v[0] == 'v' and isinstance(v[1], tuple):
                k = v[1]
                if k[0] == 'empty': return 0
                if k[0] == 'mut' and k[1] in ('push_back', 'emplace_back'): return T.add(self.size_of(k[2]), 1)
                if k[0] == 'mut' and k[1] in ('reserve',): return self.size_of(k[2])
                if k[0] == 'mut' and k[1] == 'resize': return k[3][0]
            if v[0] == 'agg': return self.size_of(v[1])
        return ('v', ('app', 'size', v, ()), (64, False))


def distinct(a, b):
    """Two index path elements that denote different elements for sure."""
    if not (isinstance(a, tuple) and isinstance(b, tuple)): return False
    x, y = a[1], b[1]
    if isinstance(x, tuple) and x[0] == 'wrap' and x[1] == 64: x = x[3]
    if isinstance(y, tuple) and y[0] == 'wrap' and y[1] == 64: y = y[3]
    try: d = T.sub(x, y)
    except Exception: return False
    return isinstance(d, int) and d % (1 << 64) != 0


def ixptr(x): return isinstance(x, tuple) and x[0] == 'ptr' and x[2] and isinstance(x[2][-1], tuple) and x[2][-1][0] == 'i'


class Frozen:
    """A hashable wrapper of a loop summary (identified by its position)."""
    def __init__(s, d): s.d = d
    def __getitem__(s, k): return s.d[k]
    def get(s, k, x=None): return s.d.get(k, x)
    def __hash__(s): return hash(s.d['id'])
    def __eq__(s, o): return isinstance(o, Frozen) and s.d['id'] == o.d['id'] and s.d['body'] == o.d['body'] and s.d['cond'] == o.d['cond']
    def __repr__(s): return 'loop<%s>' % s.d['id']


def show(t, depth=0):
    """Readable form of a term."""
    if isinstance(t, int): return str(t) if -4096 < t < 4096 else hex(t)
    if not isinstance(t, tuple) or not t: return str(t)
    op = t[0]
    if op == 'v':
        k = t[1]
        if isinstance(k, tuple):
            if k[0] == 'in': return '.'.join([rootname(k[1])] + [x if isinstance(x, str) else '[%s]' % show(x[1]) for x in k[2]])
            if k[0] == 'app': return '%s(%s)' % (tail(str(k[1])), ','.join(show(x) for x in k[2:] if x not in (None, ())))
            if k[0] in ('lv', 'hv', 'uninit', 'which', 'leave', 'iter', 'more'): return k[0] + ':' + str(k[1])
            return '%s(%s)' % (k[0], ','.join(show(x) for x in k[1:]))
        return str(k)
    if op == 'lin':
        s = ' + '.join((('%d*' % k if k != 1 else '') + show(x)) for x, k in t[2])
        return '(%s%s)' % (s, ' + %d' % t[1] if t[1] else '')
    if op == 'ite': return '(%s ? %s : %s)' % (show(t[1]), show(t[2]), show(t[3]))
    if op == 'wrap': return '%s%d(%s)' % ('i' if t[2] else 'u', t[1], show(t[3]))
    if op == 'le0': return '(%s <= 0)' % show(t[1])
    if op == 'eq0': return '(%s == 0)' % show(t[1])
    if op == 'not': return '!' + show(t[1])
    if op == 'ptr': return '&' + '.'.join([rootname(t[1])] + [x if isinstance(x, str) else '[%s]' % show(x[1]) for x in t[2]])
    if op in ('and', 'or', '&', '|', '^', '>>', '<<', '*', '/', '%') and len(t) == 3: return '(%s %s %s)' % (show(t[1]), op, show(t[2]))
    return '%s(%s)' % (op, ','.join(show(x) for x in t[1:]))


def rootname(r):
    if r[0] == 'D': return '*' + show(r[1])
    if r[0] == 'L': return 'local'
    return str(r[1]) if len(r) > 1 else r[0]
