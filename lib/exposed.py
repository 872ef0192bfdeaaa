"""Upward-exposed reads and must-writes of process-wide state, interprocedurally.

EXP[f]:  locations f may read before f itself has definitely overwritten them
MUST[f]: locations f overwrites on every path to its end"""
from collections import defaultdict, deque
from prog import walk, walk_fn, tail, strip
from cfg import cfg

RESET = {'clear', 'reset', 'assign', 'operator='}
PURE_OBS = set()


class Exposed:
    def __init__(self, P, E, universe, roots, canon, start=None, single=None):
        """universe: set of locations; canon(fid, loc) -> iterable of universe locations a raw location denotes (may)."""
        self.P = P; self.E = E; self.U = frozenset(universe); self.canon = canon
        self.fns = P.reach(roots)
        self.local = {}
        self.single = single or {}    # class -> its only instance
        self.start = start or {}      # f -> CFG node ids whose reads do not count (prologue)
        self.EXP = {f: frozenset() for f in self.fns}
        self.MUST = {f: self.U for f in self.fns}
        self.wit = {}; self.expw = {}
        self._prep()
        self._solve()

    def _prep(self):
        P, E = self.P, self.E
        for f in self.fns:
            E._analyse(f)
            g = cfg(P, f)
            info = {}
            for x in g.nodes:
                if x.n is None or x.kind == 'join': continue
                reads = set(); gen = set(); tg = []; lam = []
                acc = []
                def rr(locs, node, callee, cloc, lk=None, acc=acc): acc.extend((l, node) for l in locs)
                def ww(*a, **k): pass
                E.r = rr; E.w = ww
                try:
                    todo = [x.n]; first = True
                    noread = set()
                    while todo:
                        n = todo.pop()
                        k = n.get('k')
                        if id(n) in noread:
                            if k in ('mem', 'cast'):
                                b = n.get('b') or n.get('e')
                                if not n.get('arrow'): noread.add(id(b))
                                todo.append(b)
                            continue
                        if k == 'call' and not P.targets(n) and n.get('obj') is not None and resets(n):
                            noread.add(id(n['obj']))
                        if k == 'call' and not P.targets(n) and n.get('obj') is not None and tail(n.get('name', '')) == 'swap' and len(n.get('args', ())) == 1:
                            for a, b in ((n['obj'], n['args'][0]), (n['args'][0], n['obj'])):
                                if fresh(a): noread.add(id(b)); noread.add(id(strip(b)))
                        if k == 'lambda':
                            lam.append(n['fn']); continue
                        if k in ('call', 'ctor'):
                            ts = P.targets(n)
                            if not ts: E.visit(n)
                            o = n.get('obj')
                            # a library call reads the object it is called on, unless it replaces it
                            if not ts and o is not None and not resets(n):
                                acc.extend((l, n) for l in E.lv(o))
                            if n is x.n and x.kind == 'call': pass
                            elif not first and x.kind == 'call': 
                                pass
                        else:
                            E.visit(n)
                        skip = None
                        if not first or True:
                            for c in kids_no_target(n): todo.append(c)
                        first = False
                finally:
                    del E.r; del E.w
                for l, node in acc:
                    for u in self.canon(f, l):
                        reads.add(u); self.wit.setdefault((f, u), node.get('l'))
                if x.kind == 'call':
                    n = x.n
                    tg = [t for t in P.targets(n) if t in self.fns]
                    if not P.targets(n):
                        o = n.get('obj')
                        if o is not None and resets(n):
                            gen |= self.exact(f, E.lv(o))
                        if tail(n.get('name', '')) == 'swap' and o is not None and len(n.get('args', ())) == 1:
                            for a, b in ((o, n['args'][0]), (n['args'][0], o)):
                                if fresh(a): gen |= self.exact(f, E.lv(b))
                elif x.kind == 'asg' and x.n['op'] == '=':
                    gen |= self.exact(f, E.lv(x.n['a']))
                if reads or gen or tg or lam:
                    info[x.id] = (frozenset(reads), frozenset(gen), tg, lam, x)
            self.local[f] = (g, info)

    def exact(self, f, locs):
        """Universe locations certainly covered by writing the (single) location."""
        locs = list(locs)
        if len(locs) != 1: return set()
        r, p = locs[0]
        if r[0] == 'T': return {(('T',), p)}
        if r[0] == 'P': return {(r, p)}
        if r[0] == 'H' and r[1] in self.single: r = ('G', self.single[r[1]])
        return set(u for u in self.U if u[0] == r and u[1][:len(p)] == p)

    def _solve(self):
        P = self.P
        callers = defaultdict(set)
        for f in self.fns:
            for x, (r, ge, tg, lam, cn) in self.local[f][1].items():
                for t in tg + lam: callers[t].add(f)
        dq = deque(sorted(self.fns)); inq = set(self.fns)
        self.full = {}          # f -> raw must set including T/P rooted
        self.RAW = {f: None for f in self.fns}
        while dq:
            f = dq.popleft(); inq.discard(f)
            e, m, raw = self._fn(f)
            if e != self.EXP[f] or raw != self.RAW[f]:
                self.EXP[f] = e; self.RAW[f] = raw
                for c in callers[f]:
                    if c not in inq: inq.add(c); dq.append(c)

    def _subst(self, f, n, t):
        """Must-writes of callee t in f's terms; None = everything (not computed yet)."""
        raw = self.RAW[t]
        if raw is None: return None
        out = set()
        E = self.E
        for l in raw:
            if l[0][0] in ('T', 'P'):
                key = (id(n), t, l)
                s = self._sc.get(key)
                if s is None:
                    if self._ctx != f:
                        E._analyse(f); self._ctx = f
                    s = E.subst(l, n, t)
                    self._sc[key] = s
                out |= self.exact(f, s)
            else: out.add(l)
        return out

    _ctx = None
    _sc = {}

    def _fn(self, f):
        g, info = self.local[f]
        IN = {g.entry.id: frozenset()}
        exp = set()
        wl = deque([g.entry]); 
        while wl:
            x = wl.popleft()
            cur = IN[x.id]
            it = info.get(x.id)
            if it:
                reads, gen, tg, lam, cn = it
                e = set(reads)
                for t in tg + lam:
                    for u in self.EXP[t]:
                        e.add(u)
                        if (f, u) not in self.wit: self.wit[(f, u)] = (cn.n.get('l'), t)
                if x.id not in self.start.get(f, ()):
                    for u in e - cur:
                        if u not in exp:
                            exp.add(u)
                            self.expw[(f, u)] = next(((cn.n.get('l'), t) for t in tg + lam if u in self.EXP[t]), (cn.n.get('l'), None))
                if tg:
                    ms = [self._subst(f, cn.n, t) for t in tg]
                    ms = [m for m in ms if m is not None]
                    if not ms and len(tg): cur2 = None
                    else:
                        i = set(ms[0])
                        for m in ms[1:]: i &= m
                        cur2 = i
                    if cur2 is None: cur = cur   # recursion: neutral
                    else: cur = cur | cur2
                if gen: cur = cur | gen
            for y, l in x.succ:
                if y.id not in IN:
                    IN[y.id] = cur; wl.append(y)
                else:
                    n = IN[y.id] & cur
                    if n != IN[y.id]: IN[y.id] = n; wl.append(y)
        m = IN.get(g.exit.id, frozenset())
        return frozenset(exp), m, frozenset(m)

    def witness(self, f, u, depth=14):
        out = []
        while depth and f is not None:
            depth -= 1
            w = self.expw.get((f, u))
            fn = self.P.fn[f]
            if w is None: out.append(fn['name']); break
            out.append('%s (%s:%s)' % (fn['name'], fn['file'], w[0])); f = w[1]
        return ' -> '.join(out)


def resets(n):
    t = tail(n.get('name', '')); a = n.get('args', ())
    if t in RESET or n.get('op') == '=': return True
    if t == 'resize' and len(a) == 1 and strip(a[0]).get('cv') == 0: return True
    if t == 'erase' and len(a) == 2 and all(strip(x).get('k') in ('call', 'ctor', 'cast') for x in a):
        names = [tail(m.get('name', '')) for x in a for m in walk(x) if m.get('k') == 'call' and m.get('obj') is not None and not m.get('op')]
        return names in (['begin', 'end'], ['cbegin', 'cend'])
    return False


def fresh(a):
    a = strip(a)
    while a.get('k') in ('cast', 'temp', 'bind') and a.get('e'): a = strip(a['e'])
    return a.get('k') == 'ctor'


def kids_no_target(n):
    from prog import kids
    return list(kids(n))
