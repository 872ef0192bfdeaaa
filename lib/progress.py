"""Progress of loops and recursion over the input.

A loop is stuck if there is a path from its head back to its head on which nothing changes that the
loop reads: taken once, it is taken forever.  Paths are explored with the constant values of local
variables and the results of calls; token and text streams are modelled in two situations:
  'live'  the stream is not at its end: only taking something from it is progress
  'end'   the stream is at its end: taking something has no effect, every token is Invalid"""
from typestate import Typestate, Spec
from cfg import cfg, dominators
from prog import walk, strip, tail
from effects import overlap, show
import check as CK

CONSUME = {'nextToken', 'eatToken', 'eatTokens', 'readLine', 'readCharacter'}
PEEK = {'peekToken'}
END = {'atEnd'}
ROOTS = ('Tokenizer', 'TextFile')
PTRS = ('std::unique_ptr', 'std::shared_ptr', 'std::optional')
X = ('X',)


class Streams:
    """The stream classes, their primitive operations, and what they consist of."""
    def __init__(self, P):
        self.P = P
        self.cls = {c for c in P.rec if any(r in P.rec and P.is_a(c, r) for r in ROOTS)}
        self.prim = {}
        for i, f in P.fn.items():
            if f.get('cls') in self.cls:
                t = tail(f['name'])
                if t in CONSUME: self.prim[i] = 'consume'
                elif t in PEEK: self.prim[i] = 'peek'
                elif t in END: self.prim[i] = 'end'
                elif t == 'getPosition': self.prim[i] = 'getpos'
                elif t == 'setPosition': self.prim[i] = 'setpos'
                elif t == 'skipLookahead': self.prim[i] = 'peek'
        # fields holding the position and the size
        self.place = {}
        for i, f in P.fn.items():
            if f.get('cls') in self.cls and tail(f['name']) in ('tell', 'size') and f.get('body') and len(f['body'].get('s', ())) == 1 and f['body']['s'][0]['k'] == 'return':
                e = self.peel(f['body']['s'][0]['e'])
                if e['k'] == 'mem': self.place[e['q']] = tail(f['name'])
        # what streams are made of
        self.parts = set(self.cls) | {'Token', 'TokenizerPosition'}
        self.invalid = next((e['v'] for e in P.enums.get('TokenType', {}).get('e', ()) if e['n'] == 'Invalid'), None)
        # functions using a stream
        self.users = set()
        rev = {}
        for i in P.fn:
            for j in P.callees(i): rev.setdefault(j, set()).add(i)
        todo = list(self.prim)
        while todo:
            x = todo.pop()
            for y in rev.get(x, ()):
                if y not in self.users and y not in self.prim:
                    self.users.add(y); todo.append(y)
        # functions returning the token they were given by a stream
        self.tok = {i for i, k in self.prim.items() if k in ('consume', 'peek') and 'Token' in P.fn[i]['rt']}
        ch = True
        while ch:
            ch = False
            for i, f in P.fn.items():
                if i in self.tok or 'Token' not in f['rt'] or P.rec_of(f['rt']) != 'Token' or not f.get('body'): continue
                rs = [n['e'] for n in walk(f['body']) if n.get('k') == 'return' and 'e' in n]
                if rs and all(self.is_tok(e) for e in rs): self.tok.add(i); ch = True
        self.tokvar = {}
        for i, f in P.fn.items():
            if not f.get('body'): continue
            for n in walk(f['body']):
                if n.get('k') == 'var' and 'init' in n and self.is_tok(n['init']): self.tokvar[(i, n['id'])] = n

    def peel(self, e):
        while True:
            if e['k'] == 'cast': e = e['e']
            elif e['k'] == 'ctor' and e.get('cp') and len(e['args']) == 1: e = e['args'][0]
            else: return e

    def is_tok(self, e):
        e = self.peel(e)
        if e['k'] != 'call': return False
        ts = self.P.targets(e)
        return bool(ts) and all(t in self.tok for t in ts)

    def is_part(self, loc):
        """The location belongs to a stream."""
        r, p = loc
        if any(q.rsplit('::', 1)[0] in self.parts for q in p): return True
        if r[0] == 'H' and r[1] in self.parts: return True
        if r[0] == 'G' and r[1].rsplit('::', 1)[0] in self.parts: return True
        return False


class Flow(Typestate):
    def __init__(self, P, E, S):
        self.S = S; self.fid = None; self.outer = set(); self.refine = False
        spec = FlowSpec(P, S); spec.ts = self
        super().__init__(P, spec, E)
        self.memc = self.mem_const

    def place(self, e):
        e = self.S.peel(e)
        if e['k'] == 'mem' and e.get('b', {}).get('k') == 'this': return self.S.place.get(e['q'])
        if e['k'] != 'call' or e['args']: return None
        ts = self.P.targets(e)
        if ts and all(self.P.fn[t].get('cls') in self.S.cls for t in ts) and tail(e.get('name', '')) in ('tell', 'size'): return tail(e['name'])
        return None

    def mem_const(self, q, e):
        if e.get('k') != 'mem' or e.get('q') != 'Token::type' or q is None or q[0] != 'end': return None
        b = self.S.peel(e['b'])
        if self.S.is_tok(b): return self.S.invalid
        if b['k'] == 'ref' and b.get('dk') == 'local' and (self.fid, b['id']) in self.S.tokvar and (self.fid, b['id']) not in self.outer: return self.S.invalid
        return None

    def scalar(self, ty):
        if super().scalar(ty): return True
        return self.P.ty(ty).get('rec') in PTRS

    def nulltest(self, e):
        """(pointer, True if e is true for null) for null tests of smart pointers and optionals."""
        if e['k'] != 'call': return None
        if e.get('op') in ('==', '!='):
            a = list(e['args'])
            if 'obj' in e: a = [e['obj']] + a
            if len(a) == 2:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if self.S.peel(y)['k'] == 'nullptr' or (y['k'] == 'ref' and str(y.get('q', '')).endswith('nullopt')): return x, e['op'] == '=='
        if tail(e.get('name', '')) in ('operator bool', 'operator conversion', 'has_value') and 'obj' in e and not e.get('args'):
            if self.P.ty(e['obj'].get('ty', '')).get('rec') in PTRS: return e['obj'], False
        return None

    def canon(self, e):
        """A name for a comparison of plain values, or None."""
        k = e['k']
        if k == 'cast': return self.canon(e['e'])
        if k == 'int': return str(e.get('v'))
        if k == 'this': return 'this'
        if k == 'ref': return '%s#%s' % (e.get('q') or e.get('n'), e.get('id'))
        if k == 'mem':
            b = self.canon(e['b'])
            return b and '%s.%s' % (b, e['q'])
        if k == 'bin':
            a, b = self.canon(e['a']), self.canon(e['b'])
            if a is None or b is None: return None
            op = e['op']
            if op in ('>', '>='): a, b, op = b, a, {'>': '<', '>=': '<='}[op]
            if op == '<=': return '!(%s<%s)' % (b, a)
            if op == '!=': return '!(%s==%s)' % (a, b)
            return '(%s%s%s)' % (a, op, b)
        if k == 'call' and not e['args'] and 'obj' in e and tail(e.get('name', '')) in ('size', 'length', 'empty'):
            b = self.canon(e['obj'])
            return b and '%s.%s()' % (b, tail(e['name']))
        return None

    def decided(self, e, env):
        if e['k'] == 'cast': return self.decided(e['e'], env)
        if e['k'] == 'bin' and e['op'] in ('<', '>', '<=', '>=', '==', '!='):
            c = self.canon(e)
            if c is None: return None
            neg = c.startswith('!')
            v = env.get(('d', c.lstrip('!')))
            return None if v is None else int(bool(v) != neg)
        return None

    def const(self, e, env):
        k = e['k']
        if k == 'bin' and self.refine:
            v = self.decided(e, env)
            if v is not None: return v
        if k == 'bin' and self.curq is not None and self.curq[0] == 'end' and e['op'] in ('<', '>', '<=', '>=', '==', '!='):
            # at the end the position is the size
            a, b = (self.place(x) for x in (e['a'], e['b']))
            if {a, b} == {'tell', 'size'}: return int(e['op'] in ('<=', '>=', '=='))
        if k == 'call' and self.refine:
            ts = self.P.targets(e)
            if ts and self.curq is not None and self.curq[0] == 'end' and all(self.S.prim.get(t) == 'end' for t in ts): return 1
            # a function of this object that only gives an expression
            if len(ts) == 1 and not e['args'] and e.get('obj', {}).get('k') == 'this':
                b = self.P.fn[ts[0]].get('body')
                if b and b['k'] == 'block' and len(b['s']) == 1 and b['s'][0]['k'] == 'return' and 'e' in b['s'][0]:
                    v = self.const(b['s'][0]['e'], {x: y for x, y in env.items() if x[0] in ('d', 'm')})
                    if v is not None: return v
        if k == 'ctor' and self.P.ty(e.get('ty', '')).get('rec') in PTRS:
            if not e['args']: return 0
            a = self.S.peel(e['args'][0])
            if a['k'] == 'nullptr' or (a['k'] == 'ref' and str(a.get('q', '')).endswith('nullopt')): return 0
            if self.P.ty(a.get('ty', '')).get('rec') in PTRS: return self.const(a, env)
            return 1 if self.P.ty(e['ty'])['rec'] == 'std::optional' else None
        if k == 'call':
            nm = e.get('name', '')
            if nm in ('std::make_unique', 'std::make_shared', 'std::make_optional'): return 1
            if nm in ('std::move', 'std::forward') and e['args']: return self.const(e['args'][0], env)
            t = self.nulltest(e)
            if t:
                v = self.const(t[0], env)
                if v is not None: return int((v == 0) == t[1])
            if e.get('op') == '=' and 'obj' in e and self.P.ty(e['obj'].get('ty', '')).get('rec') in PTRS and e['args']: return self.const(e['args'][0], env)
        return super().const(e, env)

    def assume(self, e, val, env, tr):
        if e['k'] == 'call':
            t = self.nulltest(e)
            if t:
                v = self.const(e, env)
                if v is not None and bool(v) != val: return None
                x = self.S.peel(t[0])
                if x['k'] == 'call' and x.get('op') == '=' and 'obj' in x: x = x['obj']
                if x['k'] == 'ref' and x.get('dk') in ('local', 'parm'):
                    env = dict(env); env[('v', x['id'])] = 0 if val == t[1] else 1
                return env
        return super().assume(e, val, env, tr)

    def summary(self, fid, q, argc, stack):
        old = self.fid, self.outer
        self.fid = fid; self.outer = set()
        try: return super().summary(fid, q, argc, stack)
        finally: self.fid, self.outer = old

    def _call(self, fid, node, q, env, stack, ctx):
        outs = super()._call(fid, node, q, env, stack, ctx)
        n = node.n
        if n.get('op') == '=' and 'obj' in n and n['args']:
            o = n['obj']
            if o['k'] == 'ref' and o.get('dk') in ('local', 'parm'):
                r = []
                for q2, e2, x in outs:
                    c = self.const(n['args'][0], e2) if self.scalar(o.get('ty', '')) else None
                    e2 = dict(e2)
                    if c is not None: e2[('v', o['id'])] = c
                    else: e2.pop(('v', o['id']), None)
                    r.append((q2, e2, x))
                outs = r
        return outs


class FlowSpec(Spec):
    """q = (situation, consumed since the start, positions saved, dirty)"""
    def __init__(self, P, S): self.P = P; self.S = S; self.calls = None

    def interesting(self, fid): return fid in self.S.prim

    def on_call(self, ts, t, n, q, argv, ctx):
        S = self.S; k = S.prim.get(t)
        if k is None:
            if self.calls is not None and ctx.stack: self.calls.append((ctx.fid, t, q, n))
            if t not in S.users: return None
            out = []
            for q2, ret in ts.summary(t, (q[0], q[1], (), ()), tuple(sorted(argv.items())), ctx.stack):
                out.append(((q2[0], q2[1], q[2], q[3]), ret))
            return out
        live = q[0] == 'live'
        if k == 'consume':
            if live:
                if tail(self.P.fn[t]['name']) == 'eatTokens':
                    if argv.get(0) == 0: return [(q, None)]
                    if 0 not in argv and n['args'] and 0 in self.may(ts, n['args'][0]): return [(q, None), ((q[0], True, q[2], q[3]), None)]
                return [((q[0], True, q[2], q[3]), None)]
            return [(q, None)]
        if k == 'end':
            if not live: return [(q, 1)]
            return [(q, None if q[1] else 0)]
        if k == 'setpos':
            a = S.peel(n['args'][0]) if n['args'] else {'k': '?'}
            c = dict(q[2]).get(a['id']) if a['k'] == 'ref' and 'id' in a else None
            return [((q[0], bool(c), q[2], q[3]), None)]
        return [(q, None)]

    def may(self, ts, e):
        """Constants a conditional expression may have."""
        e = self.S.peel(e)
        if e['k'] == 'cond': return self.may(ts, e['t']) | self.may(ts, e['e'])
        return {ts.const(e, {})}

    def on_node(self, ts, cn, q, ctx):
        if cn.kind == 'var' and 'init' in cn.n and 'id' in cn.n:
            e = self.S.peel(cn.n['init'])
            if e['k'] == 'call':
                t = self.P.targets(e)
                if t and all(self.S.prim.get(x) == 'getpos' for x in t):
                    d = dict(q[2]); d[cn.n['id']] = q[1]
                    return (q[0], q[1], tuple(sorted(d.items())), q[3])
        return None

    def on_exit(self, ts, fid, q, ret, ctx):
        return (q[0], q[1], (), ())


class Loop:
    def __init__(s, fid, head, nodes, ast): s.fid = fid; s.head = head; s.nodes = nodes; s.ast = ast

    @property
    def line(s): return s.ast.get('l') if s.ast else None


def loops(P, fid):
    """Natural loops of a function."""
    g = cfg(P, fid)
    cache = g.__dict__.get('_loops')
    if cache is not None: return cache
    out = {}
    if any(n.kind == 'join' and isinstance(n.n, dict) and n.n.get('k') in ('while', 'do', 'for', 'rangefor') for n in g.nodes):
        dom = dominators(g)
        for u in g.nodes:
            if u.id not in dom: continue
            for h, _ in u.succ:
                if h.id in dom[u.id]:
                    body = out.setdefault(h.id, {h.id})
                    todo = [u]
                    while todo:
                        x = todo.pop()
                        if x.id in body: continue
                        body.add(x.id)
                        todo += [p for p, _ in g.preds[x.id] if p.id in dom]
    r = []
    for h, body in sorted(out.items()):
        hn = g.nodes[h]
        r.append(Loop(fid, hn, body, hn.n if isinstance(hn.n, dict) else None))
    g._loops = r
    return r


class NodeFx:
    """What single control-flow nodes read and write, in the function's own terms (streams left out)."""
    def __init__(self, E, S, fid):
        self.E = E; self.S = S; self.fid = fid
        E._analyse(fid)
        self.cache = {}

    def ast(self, ns):
        E = self.E; W = set(); R = set()
        if E.fid != self.fid: E._analyse(self.fid)
        def acc(s):
            def f(locs, node, callee, cloc, lk=frozenset()):
                s.update(locs)
            return f
        E.w = acc(W); E.r = acc(R)
        try:
            for n in ns: E.visit(n)
        finally:
            del E.w; del E.r
        return W, R

    def node(self, cn):
        """(written, read) by the node itself; a condition reads all its operands."""
        r = self.cache.get(cn.id)
        if r is not None: return r
        n = cn.n; W = set(); R = set()
        if cn.kind in ('call', 'asg', 'inc'):
            w, _ = self.ast([n]); W |= w
            w, rr = self.ast(list(walk(n))); R |= rr
        elif cn.kind in ('br', 'ret'):
            e = n if cn.kind == 'br' else n.get('e')
            if e is not None: R |= self.ast(list(walk(e)))[1]
        elif cn.kind == 'sw': R |= self.ast(list(walk(n['c'])))[1]
        elif cn.kind == 'var' and 'init' in n:
            R |= self.ast(list(walk(n['init'])))[1]
            if 'id' in n: W.add((('L', n['id']), ()))
        elif cn.kind == 'iter':
            R |= self.ast(list(walk(n['range'])))[1]; W.add((('ITER', id(n)), ())); R.add((('ITER', id(n)), ()))
        self.cache[cn.id] = (W, R)
        return W, R


def hits(P, a, bs):
    for b in bs:
        if a[0] == X or b[0] == X:
            if a[0][0] != 'L' or b[0][0] != 'L':
                if not (a[0][0] in ('L', 'ITER') and not a[1]) and not (b[0][0] in ('L', 'ITER') and not b[1]): return True
            continue
        if a[0][0] in ('P', 'T', 'C') or b[0][0] in ('P', 'T', 'C'):
            if a[0] == b[0]:
                n = min(len(a[1]), len(b[1]))
                if a[1][:n] == b[1][:n]: return True
            elif a[0][0] not in ('L', 'ITER') and b[0][0] not in ('L', 'ITER') and a[1] and b[1] and (set(a[1]) & set(b[1])): return True
            continue
        if overlap(P, a, b): return True
    return False


class Stuck:
    """Looks for stuck paths of one loop."""
    LIMIT = 40000

    def __init__(self, P, E, S, flow):
        self.P = P; self.E = E; self.S = S; self.flow = flow
        self.fx = {}; self.reads = {}; self.count = {}
        self.states = 0

    def nodefx(self, fid):
        if fid not in self.fx: self.fx[fid] = NodeFx(self.E, self.S, fid)
        return self.fx[fid]

    def prims(self, L):
        g = cfg(self.P, L.fid)
        if self.P.fn[L.fid].get('cls') in self.S.cls: own = self.P.fn[L.fid]['cls']
        else: own = None
        out = set()
        for i in L.nodes:
            n = g.nodes[i]
            if n.kind == 'call':
                for t in self.P.targets(n.n):
                    if t in self.S.prim and not (own and self.P.is_a(own, self.P.fn[t]['cls']) and not (L.fid in self.S.prim and t != L.fid)): out.add(t)
                    elif t in self.S.users: out.add(t)
        return out

    def relevant(self, L, strict):
        """Locations the way around the loop depends on, and the nodes writing them."""
        P = self.P; g = cfg(P, L.fid); F = self.nodefx(L.fid)
        nodes = [g.nodes[i] for i in L.nodes]
        fx = {}
        for n in nodes:
            W, R = F.node(n)
            if strict:
                direct = n.kind in ('asg', 'inc')
                W = {l for l in W if self.own(L, l) or (l[0][0] in ('L', 'ITER', 'P', 'C') or direct) and not self.S.is_part(l)}
                R = {l for l in R if (self.own(L, l) or not self.S.is_part(l)) and l[0] != X}
            fx[n.id] = (W, R)
        rel = set()
        for n in nodes:
            if n.kind in ('br', 'sw', 'iter'): rel |= fx[n.id][1]
        ch = True; done = set()
        while ch:
            ch = False
            for n in nodes:
                if n.id in done: continue
                W, R = fx[n.id]
                if any(hits(P, w, rel) for w in W):
                    done.add(n.id); ch = True
                    rel |= R
        inner = set()
        for n in nodes:
            if n.kind == 'var' and 'id' in n.n: inner.add(n.n['id'])
            if n.kind == 'iter':
                for v in [n.n['var']]:
                    inner.add(v.get('id'))
        fresh = self.fresh(L, nodes, fx, inner)
        dirty = {}
        for n in nodes:
            if n.id not in done: continue
            d = set()
            for w in fx[n.id][0]:
                if w[0][0] == 'L' and (w[0][1] in inner or w[0][1] in fresh): continue
                if w[0][0] == 'ITER' and n is not L.head and w != (('ITER', id(L.ast)), ()): continue
                if hits(P, w, rel): d.add(w)
            if d: dirty[n.id] = frozenset(d)
        return rel, dirty, inner

    def own(self, L, loc):
        """A field of the stream class the loop belongs to (which is not used as a stream there)."""
        c = self.P.fn[L.fid].get('cls')
        if c not in self.S.cls or not loc[1]: return False
        q = loc[1][0].rsplit('::', 1)[0]
        return loc[0][0] == 'T' and q in self.S.cls and self.P.is_a(c, q)

    def whole(self, n):
        """The local variable a node gives a new value as a whole."""
        if n.kind == 'asg' and n.n['op'] == '=' and n.n['a']['k'] == 'ref' and n.n['a'].get('dk') in ('local', 'parm'): return n.n['a'].get('id')
        if n.kind == 'call' and n.n.get('op') == '=' and n.n.get('obj', {}).get('k') == 'ref' and n.n['obj'].get('dk') in ('local', 'parm'): return n.n['obj'].get('id')
        return None

    def fresh(self, L, nodes, fx, inner):
        """Local variables declared outside that get a new value in every iteration before they are read."""
        cand = {}
        for n in nodes:
            v = self.whole(n)
            if v is not None and v not in inner: cand.setdefault(v, set()).add(n.id)
        out = set()
        for v, kills in cand.items():
            seen = {L.head.id}; todo = [L.head]; ok = True
            while todo and ok:
                x = todo.pop()
                if x.id in kills:
                    n = x.n
                    rhs = n['b'] if x.kind == 'asg' else n['args'][0]
                    if any(y.get('k') == 'ref' and y.get('id') == v and y.get('dk') in ('local', 'parm') for y in walk(rhs)): ok = False
                    continue
                if isinstance(x.n, dict) and x.kind not in ('join', 'entry', 'exit', 'dtor'):
                    W, R = fx[x.id]
                    if any(l[0] == ('L', v) for l in R) or any(l[0] == ('L', v) for l in W): 
                        # the call computing the new value is evaluated before the assignment
                        ok = False; break
                for y, _ in x.succ:
                    if y.id in L.nodes and y.id not in seen: seen.add(y.id); todo.append(y)
            if ok: out.add(v)
        return out

    def run(self, L, mode, strict):
        """A stuck path as a list of lines, or None."""
        P = self.P; flow = self.flow
        rel, dirty, inner = self.relevant(L, strict)
        ev = self.counters(L)
        for count in ({}, ev) if ev else ({},):
            d = dirty
            if count:
                # in the long run: counting up alone is no progress, but decides comparisons
                d = {}
                for i, ls in dirty.items():
                    ls = frozenset(l for l in ls if not (l[0][0] == 'L' and l[0][1] in count and not l[1]))
                    if ls: d[i] = ls
            self.count = count
            for flow.refine in (False, True):
                for _ in range(12):
                    flow.changed = False; flow.done = set()
                    r = self.search(L, mode, d, inner)
                    if not flow.changed: break
                if r is None: break
            flow.refine = False
            if r is not None: break
        return r

    def counters(self, L):
        """Local counters that are only counted up in the loop and only compared: id -> {id(comparison): value in the long run}."""
        P = self.P; g = cfg(P, L.fid); F = self.nodefx(L.fid)
        nodes = [g.nodes[i] for i in L.nodes]
        up = set(); other = set()
        for n in nodes:
            if n.kind == 'inc' and n.n['op'].endswith('++') and n.n['e']['k'] == 'ref' and n.n['e'].get('dk') in ('local', 'parm') and not P.ty(n.n['e'].get('ty', '')).get('ptr'): up.add(n.n['e']['id'])
            elif n.kind in ('asg', 'inc', 'call', 'var', 'iter'):
                other |= {l[0][1] for l in F.node(n)[0] if l[0][0] == 'L'}
        out = {}
        for v in up - other:
            d = {}; ok = True
            for n in nodes:
                if n.kind not in ('br', 'sw', 'iter', 'call', 'asg', 'var', 'ret'): continue
                e = n.n if n.kind != 'sw' else n.n['c']
                if not any(x.get('k') == 'ref' and x.get('id') == v and x.get('dk') in ('local', 'parm') for x in walk(e)): continue
                if n.kind in ('call',) and not any(m.kind in ('br', 'sw') and any(x is n.n for x in walk(m.n)) for m in nodes): continue
                x = e
                while x['k'] == 'cast': x = x['e']
                if n.kind != 'br' or x['k'] != 'bin' or x['op'] not in ('<', '>', '<=', '>=', '==', '!='): ok = False; break
                a, b = self.S.peel(x['a']), self.S.peel(x['b']); op = x['op']
                isv = lambda y: y['k'] == 'ref' and y.get('id') == v
                if isv(b): a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                if not isv(a) or any(y.get('k') == 'ref' and y.get('id') == v for y in walk(b)): ok = False; break
                rd = F.ast(list(walk(b)))[1]
                if any(hits(P, w, rd) for m in nodes for w in F.node(m)[0] if m.kind in ('asg', 'inc', 'call', 'var', 'iter')): ok = False; break
                d[id(x)] = int(op in ('>', '>=', '!='))
            if ok: out[v] = d
        return out

    def search(self, L, mode, dirty, inner):
        P = self.P; flow = self.flow; fid = L.fid; g = cfg(P, fid); tr = flow.tracked(fid)
        flow.fid = fid
        flow.outer = {(fid, i) for f, i in flow.S.tokvar if f == fid and i not in inner}
        heads = {}       # env -> {env': path}
        todo = [frozenset()]
        while todo:
            env0 = todo.pop()
            if env0 in heads: continue
            succ = heads[env0] = {}
            start = (L.head.id, (mode, False, (), ()), env0)
            seen = {start: None}; work = [start]
            while work:
                st = work.pop()
                nid, q, env = st
                self.states += 1
                if len(seen) > self.LIMIT: break
                node = g.nodes[nid]
                res = flow._transfer(fid, node, q, dict(env), tr, ((fid,),), set())
                for q2, env2, _ in res:
                    d = set(q2[3])
                    if nid in dirty and not (mode == 'end' and self.from_stream(node)):
                        d |= dirty[nid]
                        if node.kind == 'asg' and node.n['op'] == '=':
                            a = node.n['a']
                            key = ('v', a['id']) if a['k'] == 'ref' and a.get('dk') in ('local', 'parm') else flow.mkey(a) if a['k'] in ('mem', 'ref') else None
                            if key in env2: d -= dirty[nid]
                    q2 = (q2[0], q2[1], q2[2], tuple(sorted(d, key=str)))
                    flow.curq = q2
                    if flow.refine: env2 = self.forget(L, node, env2)
                    for y, lab in node.succ:
                        if y.id not in L.nodes: continue
                        e3 = self.edge(flow, lab, env2, tr)
                        if e3 is None: continue
                        if flow.refine and lab and lab[0] in ('T', 'F') and lab[1].get('k') == 'bin':
                            c = flow.canon(lab[1])
                            if c is not None and lab[1]['op'] in ('<', '>', '<=', '>=', '==', '!='):
                                e3 = dict(e3); e3[('d', c.lstrip('!'))] = int((lab[0] == 'T') != c.startswith('!'))
                                self.reads[(L.fid, c.lstrip('!'))] = self.nodefx(fid).ast(list(walk(lab[1])))[1]
                        e3 = {k: v for k, v in e3.items() if k in tr or k[0] in ('c', 'm', 'd')}
                        if node.kind in ('br', 'asg', 'var', 'ret', 'sw'): e3 = {k: v for k, v in e3.items() if k[0] != 'c'}
                        if y is L.head:
                            if q2[1] or q2[3]: continue
                            e4 = frozenset((k, v) for k, v in e3.items() if k[0] in ('m', 'd') or (k[0] == 'v' and k[1] not in inner))
                            if e4 not in succ: succ[e4] = (st, seen); todo.append(e4)
                            continue
                        ns = (y.id, q2, frozenset(e3.items()))
                        if ns not in seen: seen[ns] = st; work.append(ns)
        # a cycle among the situations at the head
        col = {}
        def dfs(e):
            col[e] = 1
            for e2 in heads.get(e, ()):
                if col.get(e2) == 1: return (e, e2)
                if e2 not in col:
                    r = dfs(e2)
                    if r: return r
            col[e] = 2
        c = dfs(frozenset())
        if not c: return None
        st, seen = heads[c[0]][c[1]]
        path = []
        while st is not None:
            n = g.nodes[st[0]].n
            if isinstance(n, dict) and n.get('l') and (not path or path[-1] != n['l']): path.append(n['l'])
            st = seen[st]
        return path[::-1]

    def forget(self, L, node, env):
        ds = [k for k in env if k[0] == 'd']
        if not ds: return env
        W, _ = self.nodefx(L.fid).node(node)
        dead = {k for k in ds for w in W if hits(self.P, w, self.reads.get((L.fid, k[1]), ()))}
        return {k: v for k, v in env.items() if k not in dead}

    def from_stream(self, n):
        """Assigns what an exhausted stream gives, the same every time."""
        if n.kind == 'asg' and n.n['op'] == '=': e = n.n['b']
        elif n.kind == 'call' and n.n.get('op') == '=' and n.n['args']: e = n.n['args'][0]
        elif n.kind == 'call': e = n.n
        else: return False
        e = self.S.peel(e)
        if e['k'] != 'call': return False
        ts = self.P.targets(e)
        return bool(ts) and all(self.S.prim.get(t) in ('consume', 'peek') for t in ts)

    def edge(self, flow, lab, env, tr):
        if not lab: return env
        if lab[0] in ('T', 'F') and self.count:
            x = lab[1]
            while x.get('k') == 'cast': x = x['e']
            for d in self.count.values():
                if id(x) in d and d[id(x)] != (lab[0] == 'T'): return None
        if lab[0] in ('T', 'F') and lab[1].get('k') != 'rangefor': return flow.assume(lab[1], lab[0] == 'T', env, tr)
        if lab[0] == 'case':
            v = flow.const(lab[1]['c'], env)
            if v is not None and not isinstance(v, str) and not (lab[2][0] <= v <= lab[2][1]): return None
        elif lab[0] == 'default':
            v = flow.const(lab[1]['c'], env)
            if v is not None and not isinstance(v, str) and any(a <= v <= b for a, b in lab[2]): return None
        return env
