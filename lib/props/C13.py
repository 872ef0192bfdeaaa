from cfg import cfg
from prog import walk, walk_fn, tail
from front import Broken
import check as CK
import progress as G
from effects import show

RULE = """every loop makes progress or stops, and every recursion that reads more text is limited: (1) no loop has a path from its head back to its head that changes nothing the loop reads, neither while its token or text stream still has something nor at the end of the stream, where taking something has no effect and every token is invalid; (2) no parsing routine reaches itself without having taken a token; (3) every call cycle that starts reading another text (file, macro, function body) passes a depth limit that stays reached until the outermost text is left; (4) replaced equs count their depth and stop at a limit; (5) the loop over layout passes leaves at a limit of passes
(path search over control-flow graphs with constant propagation and call summaries; stream situations live/end; call-graph cycles with limit tests cut out)"""
LEVEL = 'other'
ASSUMPTIONS = ['loops over object file contents are only required to change something in every round, not to terminate for every malformed object file',
               'a loop that counts or steps through a finite container is taken to reach its end',
               'recursion over an expression or command tree ends with the tree']
MAXLIMIT = 10000
GROW = ('push_back', 'emplace_back', 'push', 'emplace', 'push_front', 'emplace_front', 'insert')


def line(P, fid, l): return '%s:%s (%s)' % (P.fn[fid]['file'], l, P.fn[fid]['name'])


def P_sig(P, f): return P.fn[f]['name'] + '.' + '.'.join(p['n'] for p in P.fn[f]['params'])


def sccs(nodes, succ):
    idx = {}; low = {}; st = []; on = set(); out = []; n = [0]
    for r in nodes:
        if r in idx: continue
        work = [(r, iter(sorted(succ.get(r, ()))))]
        idx[r] = low[r] = n[0]; n[0] += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in nodes: continue
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter(sorted(succ.get(w, ())))))
                    break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    if len(c) > 1 or v in succ.get(v, ()): out.append(c)
    return out


class Check:
    def __init__(self, P, E, res):
        self.P = P; self.E = E; self.res = res
        self.S = G.Streams(P); self.flow = G.Flow(P, E, self.S)
        self.K = G.Stuck(P, E, self.S, self.flow)

    # ------------------------------------------------------------------ 1: loops
    def loops(self):
        P = self.P; res = self.res; K = self.K
        n = m = 0
        for fid in sorted(P.fn):
            f = P.fn[fid]
            if not f.get('body') or f['file'].startswith(('Main/Tests', 'ext/')): continue
            for k, L in enumerate(G.loops(P, fid)):
                pr = K.prims(L)
                n += 1
                if pr: m += 1
                for mode in ('live', 'end') if pr else ('live',):
                    s0 = K.states
                    r = K.run(L, mode, bool(pr))
                    what = 'loop at %s' % line(P, fid, L.line)
                    if pr: what += {'live': ' takes something from its stream in every round', 'end': ' stops at the end of its stream'}[mode]
                    else: what += ' changes what it depends on in every round'
                    res.ob(what, r is None, 'loop.%s.%s.%d' % (mode, f['name'], k),
                           what + ': not on the path through lines %s' % ', '.join(map(str, (r or [])[:14])))
        res.need(n, 100, 'loops')
        res.need(m, 15, 'stream_loops')
        res.stats['path_states'] = K.states

    # ------------------------------------------------------------------ 2: recursion without consumption
    def descent(self):
        P = self.P; S = self.S; flow = self.flow; res = self.res
        def takes(f):
            c = P.fn[f].get('cls')
            if c in S.cls or c == 'Parser' and c in P.rec: return True
            return any(P.rec_of(p['ty']) in S.cls or P.rec_of(p['ty']) == 'Parser' for p in P.fn[f]['params'])
        users = sorted(f for f in S.users if P.fn[f].get('body') and takes(f))
        uset = set(users)
        for mode in ('live', 'end'):
            edges = {}
            for _ in range(12):
                flow.changed = False; flow.done = set(); flow.spec.calls = []
                for f in users:
                    flow.summary(f, (mode, False, (), ()), (), ())
                for a, b, q, n in flow.spec.calls:
                    if not q[1] and a in uset and b in uset: edges.setdefault(a, {})[b] = n.get('l')
                if not flow.changed: break
            flow.spec.calls = None
            bad = sccs(set(users), {a: set(b) for a, b in edges.items()})
            txt = {'live': 'no parsing routine calls itself before a token was taken', 'end': 'no parsing routine calls itself at the end of its input'}[mode]
            for c in bad:
                c = sorted(c)
                res.ob(txt, False, 'descent.%s.%s' % (mode, P.fn[c[0]]['name']), '%s: %s' % (txt, ' -> '.join(P.fn[x]['name'] for x in c)))
            if not bad: res.ob(txt)
            res.stats['unconsumed_calls_' + mode] = sum(len(b) for b in edges.values())
        res.need(len(users), 60, 'stream_functions')

    # ------------------------------------------------------------------ 3: texts inside texts
    def consts(self, e, depth=2):
        out = set()
        for x in walk(e):
            v = x.get('cv', x.get('v') if x['k'] == 'int' else None)
            if v is None and x['k'] == 'ref' and x.get('dk') == 'global':
                d = self.P.vars.get(x['q'], {})
                if d.get('const') and 'init' in d: v = d['init'].get('cv', d['init'].get('v'))
            if v is None and x['k'] == 'ref' and x.get('dk') == 'local' and self.P.ty(x.get('ty', '')).get('const'): pass
            if isinstance(v, int) and not self.P.ty(x.get('ty', '')).get('bool'): out.add(v)
            if x['k'] == 'call' and depth:
                for t in self.P.targets(x):
                    b = self.P.fn[t].get('body')
                    if b and t not in self.S.prim: out |= self.consts(b, depth - 1)
        return out

    def exprs(self, fid, e, seen=None):
        """e with its local variables replaced by what they were initialised with."""
        seen = set() if seen is None else seen
        out = [e]
        for x in walk(e):
            if x['k'] == 'ref' and x.get('dk') == 'local' and x['id'] not in seen:
                seen.add(x['id'])
                for n in walk(self.P.fn[fid]['body']):
                    if n.get('k') == 'var' and n.get('id') == x['id'] and 'init' in n: out += self.exprs(fid, n['init'], seen)
                    elif n.get('k') == 'asg' and n['a'].get('k') == 'ref' and n['a'].get('id') == x['id']: out += self.exprs(fid, n['b'], seen)
        return out

    CMP = ('<', '>', '<=', '>=', '==', '!=')

    def reads_of(self, fid, e, args=None):
        """Locations an expression reads as the counted value itself: x, x.size(), x.empty()."""
        F = self.K.nodefx(fid); out = set()
        for x in self.exprs(fid, e):
            for l in F.ast(list(walk(x)))[1]:
                out.add(l)
            if args is not None:
                ps = [p['n'] for p in self.P.fn[fid]['params']]
                for y in walk(x):
                    if y['k'] == 'ref' and y.get('dk') == 'parm' and y['n'] in ps: out |= args.get(ps.index(y['n']), set())
        return out

    def constant(self, fid, e):
        """The constant an expression consists of, or None."""
        for x in self.exprs(fid, e):
            if any(y['k'] in ('call', 'mem') and 'cv' not in y for y in walk(x)): continue
            c = self.consts(x)
            if len(c) == 1: return next(iter(c))
        return None

    def plain(self, e):
        """An integer value not taken from a stream."""
        P = self.P
        while e['k'] == 'cast': e = e['e']
        t = P.ty(e.get('ty', ''))
        if t.get('enum') or t.get('rec'): return False
        if not any(y['k'] in ('mem', 'ref', 'call') for y in walk(e)): return False
        return not any(y['k'] == 'call' and any(x in self.S.prim or x in self.S.users for x in P.targets(y)) for y in walk(e))

    def compares(self, fid, e, args=None, depth=2):
        """[(locations compared, constant)] of the comparisons an expression consists of."""
        P = self.P; out = []
        for x0 in self.exprs(fid, e):
            for x in walk(x0):
                if x['k'] == 'bin' and x['op'] in self.CMP:
                    for a, b in ((x['a'], x['b']), (x['b'], x['a'])):
                        c = self.constant(fid, b)
                        if c is not None and self.plain(a): out.append((self.reads_of(fid, a, args), c, x['op'] in ('==', '!=')))
                elif x['k'] == 'call' and depth and 'op' not in x:
                    for t in P.targets(x):
                        f = P.fn[t]; b = f.get('body')
                        if not b or t in self.S.prim or not P.ty(f['rt']).get('bool') or t == fid: continue
                        if any(l[0][0] != 'L' for n in cfg(P, t).nodes for l in self.K.nodefx(t).node(n)[0]): continue
                        m = {i: self.reads_of(fid, a, args) for i, a in enumerate(x['args'])}
                        for n in walk(b):
                            if n['k'] == 'return' and 'e' in n: out += self.compares(t, n['e'], m, depth - 1)
                            elif n['k'] == 'if' and 'c' in n: out += self.compares(t, n['c'], m, depth - 1)
        return out

    def falls(self, fid, node, depth=2):
        """Locations a node counts down."""
        F = self.K.nodefx(fid); P = self.P; out = set()
        if node.kind == 'inc' and node.n['op'].endswith('--') or node.kind == 'asg' and node.n['op'] == '-=': out |= F.ast([node.n])[0]
        elif node.kind == 'call':
            if tail(node.n.get('name', '')) in ('pop_back', 'pop', 'pop_front') and 'obj' in node.n and not P.targets(node.n): out |= F.ast([node.n])[0]
            elif depth:
                for t in P.targets(node.n):
                    if t in self.S.prim or not P.fn[t].get('body'): continue
                    ns = cfg(P, t).nodes
                    up = {l for m in ns for l in self.steps(t, m, 0)}
                    for m in ns:
                        for l in self.falls(t, m, depth - 1):
                            if l in up: continue
                            if l[0][0] == 'G' or l[0][0] == 'T' and node.n.get('obj', {}).get('k') == 'this': out.add(l)
        return out

    def scoped(self, fid, g, l, ns, targets):
        """A counter counted up by the constructor of a local object is only counted while the object lives."""
        P = self.P
        for i in ns:
            n = g.nodes[i].n
            if n.get('k') != 'ctor' or not P.rec_of(n.get('ty', '')): continue
            r = P.rec_of(n['ty'])
            ds = [f for f in P.fn if P.fn[f].get('cls') == r and tail(P.fn[f]['name']).startswith('~') and P.fn[f].get('body')]
            if not any(l in self.falls(d, m) for d in ds for m in cfg(P, d).nodes): continue
            # the block the object is declared in
            def find(b, inner):
                for x in (b if isinstance(b, list) else list(b.values())):
                    if x is n: return [inner]
                    if isinstance(x, (dict, list)):
                        r = find(x, x if isinstance(x, dict) and x.get('k') == 'block' else inner)
                        if r: return r
                return []
            blk = find(P.fn[fid]['body'], P.fn[fid]['body'])
            if not blk: continue
            inside = {id(x) for x in walk(blk[0])}
            if any(id(g.nodes[t].n) not in inside for t in targets): return False
        return True

    def steps(self, fid, node, depth=2):
        """Locations a node counts up: counters and containers that grow."""
        F = self.K.nodefx(fid); P = self.P
        out = set()
        if node.kind == 'inc' and node.n['op'].endswith('++'): out |= F.ast([node.n])[0]
        elif node.kind == 'asg' and node.n['op'] == '+=': out |= F.ast([node.n])[0]
        elif node.kind == 'asg' and node.n['op'] == '=':
            w = F.ast([node.n])[0]
            if any(x['k'] == 'bin' and x['op'] == '+' and F.ast(list(walk(x)))[1] & w for x in walk(node.n['b'])): out |= w
        elif node.kind == 'call':
            if tail(node.n.get('name', '')) in GROW and 'obj' in node.n and not P.targets(node.n): out |= F.ast([node.n])[0]
            elif depth:
                for t in P.targets(node.n):
                    if t in self.S.prim or not P.fn[t].get('body'): continue
                    for m in cfg(P, t).nodes:
                        for l in self.steps(t, m, depth - 1):
                            if l[0][0] == 'G' or l[0][0] == 'T' and node.n.get('obj', {}).get('k') == 'this': out.add(l)
        return out

    def cut(self, g, blocked, targets):
        """A target reachable from the entry without passing a blocked node, or None."""
        seen = {g.entry.id}; todo = [g.entry]
        while todo:
            x = todo.pop()
            if x.id in targets: return x
            if x.id in blocked: continue
            for y, _ in x.succ:
                if y.id not in seen: seen.add(y.id); todo.append(y)
        return None

    def leaves(self, g, br, targets):
        """One side of the branch reaches no target."""
        for y, _ in br.succ:
            seen = {y.id}; todo = [y]; hit = False
            while todo:
                x = todo.pop()
                if x.id in targets: hit = True; break
                for z, _ in x.succ:
                    if z.id not in seen: seen.add(z.id); todo.append(z)
            if not hit: return True
        return False

    def limit(self, fid, targets):
        """Why the calls (node ids) of fid are not limited in depth, or None."""
        P = self.P; g = cfg(P, fid); F = self.K.nodefx(fid)
        steps = {}
        for n in g.nodes:
            for l in self.steps(fid, n):
                if l[0][0] in ('G', 'T', 'H', 'C'): steps.setdefault(l, set()).add(n.id)
        brs = [n for n in g.nodes if n.kind == 'br']
        cmps = {n.id: [x for x in self.compares(fid, n.n) if 2 <= x[1] <= MAXLIMIT] for n in brs}
        single = lambda i: self.single(g.nodes[i])
        ok = None
        for l, ns in sorted(steps.items(), key=str):
            tests = {n.id for n in brs if any(l in r and (not eq or all(map(single, ns))) for r, c, eq in cmps[n.id]) and self.leaves(g, n, targets)}
            if not tests: continue
            if self.cut(g, tests, targets) is not None: continue
            if self.cut(g, ns, targets - ns) is not None: continue
            if not self.scoped(fid, g, l, ns, targets): continue
            if any(self.after(g, n.id, ns, targets) for n in g.nodes if l in self.falls(fid, n)): continue
            ok = l; break
        if ok is None: return 'no path limits the depth: a counter compared with a limit and counted up on every path to the call was not found'
        # once reached, the limit has to stay reached
        flags = set()
        for x in [fid] + sorted(P.callees(fid)):
            for n in (walk_fn(P.fn[x]) if P.fn[x].get('body') else ()):
                if n.get('k') == 'asg' and n['op'] == '=' and P.ty(n['a'].get('ty', '')).get('bool'):
                    c = self.flow.const(n['b'], {})
                    if c == 1: flags |= {l for l in self.K.nodefx(x).ast([n])[0] if l[0][0] in ('G', 'T', 'H')}
        reads = {n.id: self.reads_of(fid, n.n) for n in brs}
        for l in flags:
            tests = {n.id for n in brs if l in reads[n.id] and self.leaves(g, n, targets)}
            clear = {n.id for n in g.nodes if n.kind == 'asg' and n.n['op'] == '=' and self.flow.const(n.n['b'], {}) == 0 and l in self.K.nodefx(fid).ast([n.n])[0]}
            if tests and self.cut(g, tests | clear, targets) is None and not self.forgotten(fid, l, ok): return None
        return 'reaching the limit is not remembered, so the number of attempts at the limit grows exponentially'

    def single(self, node):
        """Counts in steps of one, so that a limit tested for equality is not stepped over."""
        return node.kind in ('inc', 'call') or node.kind == 'asg' and node.n['op'] == '+=' and self.flow.const(node.n['b'], {}) == 1

    def after(self, g, start, blocked, targets):
        """A target reachable after a node without passing a blocked node."""
        seen = {start}; todo = [g.nodes[start]]
        while todo:
            x = todo.pop()
            for y, _ in x.succ:
                if y.id in targets: return True
                if y.id in blocked or y.id in seen: continue
                seen.add(y.id); todo.append(y)
        return False

    def forgotten(self, fid, flag, counter):
        """The flag is cleared without looking at the counter."""
        P = self.P
        todo = {fid} | set(P.callees(fid))
        todo |= {f for f in P.fn if tail(P.fn[f]['name']).startswith('~') and P.fn[f].get('cls') in {P.rec_of(x['ty']) for x in walk_fn(P.fn[fid]) if x.get('k') == 'ctor' and x.get('ty')}}
        for f in sorted(todo):
            if not P.fn[f].get('body'): continue
            g = cfg(P, f)
            clear = {n.id for n in g.nodes if n.kind == 'asg' and n.n['op'] == '=' and self.flow.const(n.n['b'], {}) == 0 and flag in self.K.nodefx(f).ast([n.n])[0]}
            if not clear: continue
            tests = {n.id for n in g.nodes if n.kind == 'br' and any(l[0] == counter[0] and (not l[1] or not counter[1] or l[1][-1] == counter[1][-1]) for l in self.reads_of(f, n.n)) and self.leaves(g, n, clear)}
            if self.cut(g, tests, clear) is not None: return True
        return False

    def texts(self):
        P = self.P; S = self.S; res = self.res
        succ = {f: set(P.callees(f)) & set(P.fn) for f in P.fn}
        comp = {}
        for k, c in enumerate(sccs(set(P.fn), succ)):
            for x in c: comp[x] = (k, set(c))
        makers = {}
        for f in sorted(P.fn):
            if f not in comp or not P.fn[f].get('body') or P.fn[f].get('cls') in S.cls: continue
            g = cfg(P, f)
            for n in g.nodes:
                if n.kind == 'call':
                    ts = P.targets(n.n)
                    if any(P.fn[t].get('cls') in S.cls and P.is_a(P.fn[t]['cls'], 'Tokenizer') and tail(P.fn[t]['name']) == 'init' for t in ts): makers.setdefault(f, set()).add(n.id)
        res.need(len(makers), 2, 'recursive_text_readers')
        bounded = {}; why = {}
        for f in comp:
            if not P.fn[f].get('body'): continue
            g = cfg(P, f)
            targets = {n.id for n in g.nodes if n.kind == 'call' and any(t in comp[f][1] for t in P.targets(n.n))}
            if f in makers:
                # calls made once another text is being read
                seen = set(makers[f]); todo = [g.nodes[i] for i in makers[f]]
                while todo:
                    x = todo.pop()
                    for y, _ in x.succ:
                        if y.id not in seen: seen.add(y.id); todo.append(y)
                targets &= seen
            if not targets: continue
            r = self.limit(f, targets)
            why[f] = r
            if r is None: bounded[f] = True
        rest = set(P.fn) - set(bounded)
        left = {}
        for c in sccs(rest, succ):
            for x in c: left[x] = c
        for f in sorted(makers):
            name = P.fn[f]['name']
            what = 'texts read by %s inside of texts are limited in depth' % line(P, f, P.fn[f]['line'])
            if f not in left: res.ob(what); continue
            # the most telling function of the cycle: one that counts something
            best = sorted((x for x in left[f] if why.get(x)), key=lambda x: (not why[x].startswith('reaching'), x != f, x))
            res.ob(what, False, 'depth.%s' % name, '%s: %s' % (what, (why[best[0]] + ' in ' + P.fn[best[0]]['name']) if best else 'no limit found'))
        res.stats['depth_limits'] = sorted(P.fn[f]['name'] for f in bounded)

    # ------------------------------------------------------------------ 4: equs
    def equs(self):
        P = self.P; res = self.res
        found = 0
        for f in sorted(P.fn):
            fn = P.fn[f]
            if fn.get('cls') not in self.S.cls or not fn.get('body'): continue
            F = self.K.nodefx(f); g = cfg(P, f)
            for L in G.loops(P, f):
                uses = set()
                for i in L.nodes:
                    n = g.nodes[i]
                    if n.kind in ('call', 'var', 'asg') and isinstance(n.n, dict):
                        e = n.n.get('init') if n.kind == 'var' else n.n
                        if e is not None and any(x['k'] == 'ref' and x.get('dk') == 'global' and str(x.get('q', '')).startswith('Tokenizer::') and 'Token' in x.get('ty', '') for x in walk(e)): uses.add(i)
                # only if the loop looks at what it put in
                uses = {i for i in uses if self.around(g, L, i)}
                if not uses: continue
                found += 1
                what = 'equs replaced at %s are limited in depth' % line(P, f, L.line)
                fields = {}
                for i in L.nodes:
                    n = g.nodes[i]
                    if n.kind == 'asg' and n.n['op'] == '=' and n.n['a']['k'] == 'mem' and n.n['a']['q'].startswith('Token::'):
                        q = n.n['a']['q']
                        for e in self.exprs(f, n.n['b']):
                            for x in walk(e):
                                if x['k'] == 'bin' and x['op'] == '+' and any(y['k'] == 'mem' and y['q'] == q for y in walk(x)): fields.setdefault(q, set()).add(i)
                    if n.kind == 'inc' and n.n['e']['k'] == 'mem' and n.n['e']['q'].startswith('Token::'): fields.setdefault(n.n['e']['q'], set()).add(i)
                ok = False
                for q, ws in fields.items():
                    tests = set()
                    for i in L.nodes:
                        n = g.nodes[i]
                        if n.kind != 'br': continue
                        es = self.exprs(f, n.n)
                        if any(y['k'] == 'mem' and y['q'] == q for e in es for y in walk(e)) and any(x['k'] == 'bin' and x['op'] in ('<', '>', '<=', '>=', '==') for e in es for x in walk(e)) and \
                           any(2 <= c <= MAXLIMIT for e in es for c in self.consts(e)) and any(y.id not in L.nodes or not self.back(g, L, y, uses) for y, _ in n.succ): tests.add(i)
                    if tests and not self.within(g, L, uses, tests): ok = True
                if ok: ok = self.equflag(f, g, L, uses)
                res.ob(what, ok, 'equ.depth', what + ': no limit on the number of replacements is tested on every path')
        res.need(found, 1, 'equ_replacements')

    def equflag(self, f, g, L, uses):
        """Once the limit was reached nothing is replaced any more."""
        P = self.P
        flags = set()
        for n in g.nodes:
            if n.kind == 'asg' and n.n['op'] == '=' and P.ty(n.n['a'].get('ty', '')).get('bool') and self.flow.const(n.n['b'], {}) == 1: flags |= {l for l in self.K.nodefx(f).ast([n.n])[0] if l[0][0] in ('G', 'T')}
            elif n.kind == 'call':
                for t in P.targets(n.n):
                    if P.fn[t].get('cls') not in self.S.cls: continue
                    for m in (walk_fn(P.fn[t]) if P.fn[t].get('body') else ()):
                        if m.get('k') == 'asg' and m['op'] == '=' and P.ty(m['a'].get('ty', '')).get('bool') and self.flow.const(m['b'], {}) == 1: flags |= {l for l in self.K.nodefx(t).ast([m])[0] if l[0][0] in ('G', 'T')}
        for l in flags:
            tests = {i for i in L.nodes if g.nodes[i].kind == 'br' and l in self.reads_of(f, g.nodes[i].n) and any(y.id not in L.nodes or not self.back(g, L, y, uses) for y, _ in g.nodes[i].succ)}
            if tests and not self.within(g, L, uses, tests): return True
        return False

    def around(self, g, L, i):
        seen = set(); todo = [g.nodes[i]]
        while todo:
            x = todo.pop()
            for y, _ in x.succ:
                if y is L.head: return True
                if y.id in L.nodes and y.id not in seen: seen.add(y.id); todo.append(y)
        return False

    def back(self, g, L, n, uses):
        """From n a use can be reached in this round."""
        seen = {n.id}; todo = [n]
        while todo:
            x = todo.pop()
            if x.id in uses: return True
            for y, _ in x.succ:
                if y.id in L.nodes and y is not L.head and y.id not in seen: seen.add(y.id); todo.append(y)
        return False

    def within(self, g, L, uses, tests):
        """A use reachable in a round without passing a test."""
        seen = {L.head.id}; todo = [L.head]
        while todo:
            x = todo.pop()
            if x.id in uses: return True
            if x.id in tests: continue
            for y, _ in x.succ:
                if y.id in L.nodes and y.id not in seen: seen.add(y.id); todo.append(y)
        return False

    # ------------------------------------------------------------------ loading tokens
    def loaders(self):
        """Every token read from a line takes at least one character, as tokens are loaded until the line is used up."""
        P = self.P; res = self.res; n = 0
        for c in sorted(self.S.cls):
            ms = [f for f in P.fn if P.fn[f].get('cls') == c and P.fn[f].get('body')]
            load = [f for f in ms if P.rec_of(P.fn[f]['rt']) == 'Token' and '&' not in P.fn[f]['rt'] and tail(P.fn[f]['name']) not in ('nextToken', 'peekToken')]
            if not load: continue
            # fields a method moves ahead by one of its parameters: method -> {(field, parameter)}
            adv = {}
            def moved(f):
                out = {}
                for nd in cfg(P, f).nodes:
                    if nd.kind == 'asg' and nd.n['op'] == '+=' and nd.n['a']['k'] == 'mem' and nd.n['a'].get('b', {}).get('k') == 'this':
                        b = self.S.peel(nd.n['b'])
                        if b['k'] == 'ref' and b.get('dk') == 'parm': out.setdefault((nd.n['a']['q'], b['n']), set()).add(nd.id)
                    if nd.kind == 'call':
                        for t in P.targets(nd.n):
                            for q, i in adv.get(t, ()):
                                if i < len(nd.n['args']):
                                    b = self.S.peel(nd.n['args'][i])
                                    if b['k'] == 'ref' and b.get('dk') == 'parm': out.setdefault((q, b['n']), set()).add(nd.id)
                return out
            ch = True
            while ch:
                ch = False
                for f in ms:
                    g = cfg(P, f); names = [p['n'] for p in P.fn[f]['params']]
                    for (q, pn), ns in moved(f).items():
                        if pn in names and self.cut(g, ns, {g.exit.id}) is None:
                            k = (q, names.index(pn))
                            if k not in adv.setdefault(f, set()): adv[f].add(k); ch = True
            fields = {q for v in adv.values() for q, _ in v}
            if not fields: continue
            near = set(load); ch = True
            while ch:
                more = {t for f in near for t in P.callees(f) if t in ms} - near
                near |= more; ch = bool(more)
            # 1. what makes a token moves ahead by its length
            makers = {}; ch = True
            def isparm(f, e):
                e = self.S.peel(e)
                return e.get('dk') == 'parm' and next((i for i, p in enumerate(P.fn[f]['params']) if p['n'] == e['n']), None)
            while ch:
                ch = False
                for f in near:
                    if f in makers: continue
                    for nd in cfg(P, f).nodes:
                        i = False
                        if nd.kind == 'asg' and nd.n['a']['k'] == 'mem' and nd.n['a']['q'] == 'Token::type': i = isparm(f, nd.n['b'])
                        elif nd.kind == 'call':
                            for t in P.targets(nd.n):
                                if t in makers and makers[t] < len(nd.n['args']): i = isparm(f, nd.n['args'][makers[t]])
                        if i is not False and i is not None: makers[f] = i; ch = True; break
            direct = lambda f: any(nd.kind in ('asg', 'inc') and any(l[1] and l[1][-1] in fields for l in self.K.nodefx(f).node(nd)[0]) for nd in cfg(P, f).nodes)
            for f in sorted(makers):
                if not any(f in P.callees(x) and not direct(x) for x in near if x not in makers): continue
                n += 1
                res.ob('%s moves ahead by the length of the token it makes' % P.fn[f]['name'], f in adv, 'load.advance.%s' % P_sig(P, f),
                       '%s makes a token without moving ahead in the line by its length on every path' % line(P, f, P.fn[f]['line']))
            # 2. no token of length 0 before the end of the input
            for f in sorted(near):
                g = cfg(P, f); zero = set()
                for nd in g.nodes:
                    if nd.kind != 'call': continue
                    for t in P.targets(nd.n):
                        for q, i in adv.get(t, ()):
                            if i < len(nd.n['args']):
                                n += 1
                                if self.flow.const(nd.n['args'][i], {}) == 0: zero.add(nd.id)
                if not zero: continue
                seen = {g.entry.id}; todo = [g.entry]; bad = None
                while todo:
                    x = todo.pop()
                    if x.id in zero: bad = x; break
                    for y, lab in x.succ:
                        if lab and lab[0] in ('T', 'F') and lab[1].get('k') != 'rangefor' and self.ended(f, lab[1], lab[0] == 'T', fields): continue
                        if y.id not in seen: seen.add(y.id); todo.append(y)
                res.ob('%s makes no empty token before the end of its input' % P.fn[f]['name'], bad is None, 'load.empty.%s' % P.fn[f]['name'],
                       '%s: a token of length 0 is made although the line is not used up, so the next token is the same again' % (line(P, f, bad.n.get('l')) if bad else ''))
        res.need(n, 10, 'token_lengths')

    def ended(self, f, e, val, fields, depth=2):
        """e being val implies that a field has reached the size of something."""
        P = self.P
        e = self.S.peel(e)
        if e['k'] == 'un' and e['op'] == '!': return self.ended(f, e['e'], not val, fields, depth)
        if e['k'] == 'bin' and e['op'] in ('&&', '||'):
            both = (e['op'] == '&&') == val
            r = [self.ended(f, x, val, fields, depth) for x in (e['a'], e['b'])]
            return any(r) if both else all(r)
        if e['k'] == 'bin' and e['op'] in self.CMP:
            for a, b, op in ((e['a'], e['b'], e['op']), (e['b'], e['a'], {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(e['op'], e['op']))):
                if any(x['k'] == 'mem' and x['q'] in fields for x in walk(a)) and any(x['k'] == 'call' and tail(x.get('name', '')) in ('size', 'length') for x in walk(b)):
                    return op in (('>=', '==') if val else ('<', '!='))
        if e['k'] == 'call' and depth:
            ts = P.targets(e)
            if ts and all(len(P.fn[t].get('body', {}).get('s', ())) == 1 and P.fn[t]['body']['s'][0]['k'] == 'return' for t in ts):
                return all(self.ended(t, P.fn[t]['body']['s'][0]['e'], val, fields, depth - 1) for t in ts)
            # a test of more than one statement that looks at the field is taken at its word
            return val and bool(ts) and all(P.fn[t].get('body') and P.ty(P.fn[t]['rt']).get('bool') and not P.fn[t]['params'] and any(x.get('k') == 'mem' and x['q'] in fields for x in walk_fn(P.fn[t]))
                                            and not any(x.get('k') in ('inc', 'asg') for x in walk_fn(P.fn[t])) for t in ts) and not any(self.makes(t) for t in ts)
        return False

    def makes(self, t): return any(x.get('k') == 'mem' and x['q'] == 'Token::type' for x in walk_fn(self.P.fn[t])) or any(self.makes(c) for c in self.P.callees(t) if c != t and self.P.fn[c].get('cls') == self.P.fn[t].get('cls') and self.P.fn[c].get('body') and not self.P.fn[c].get('rec'))

    # ------------------------------------------------------------------ 5: layout passes
    def passes(self):
        P = self.P; res = self.res; found = 0
        val = {f for f in P.fn if tail(P.fn[f]['name']) == 'Validate' and P.fn[f].get('cls') and P.is_a(P.fn[f]['cls'], 'CAssemblerCommand')}
        if not val: raise Broken('CAssemblerCommand::Validate not found')
        for f in sorted(P.fn):
            fn = P.fn[f]
            if not fn.get('body') or fn.get('cls') and P.is_a(fn['cls'], 'CAssemblerCommand'): continue
            for L in G.loops(P, f):
                if L.ast is None or L.ast.get('k') == 'rangefor': continue
                g = cfg(P, f); F = self.K.nodefx(f)
                calls = [g.nodes[i] for i in L.nodes if g.nodes[i].kind == 'call' and any(t in val or (P.reach([t]) & val and P.fn[t].get('cls') is None) for t in P.targets(g.nodes[i].n))]
                if not calls: continue
                found += 1
                what = 'the number of layout passes at %s is limited' % line(P, f, L.line)
                ok = False
                steps = {}; others = set()
                for i in L.nodes:
                    n = g.nodes[i]
                    s = self.steps(f, n) if n.kind in ('inc', 'asg') else set()
                    for l in s: steps.setdefault(l, set()).add(i)
                    if n.kind in ('inc', 'asg', 'call', 'var'):
                        for l in F.node(n)[0]:
                            if l not in s: others.add(l)
                for l, ns in steps.items():
                    if any(G.hits(P, l, [o]) for o in others if o[0] == l[0]): continue
                    tests = set()
                    for i in L.nodes:
                        n = g.nodes[i]
                        if n.kind == 'br' and any(l in r and 2 <= c and (not eq or all(self.single(g.nodes[j]) for j in ns)) for r, c, eq in self.compares(f, n.n)):
                            if any(y.id not in L.nodes or not self.around(g, L, y.id) and y is not L.head for y, _ in n.succ): tests.add(i)
                    if tests and not self.loopcut(g, L, tests) and not self.loopcut(g, L, ns): ok = True
                res.ob(what, ok, 'passes', what + ': no counter that is counted up in every pass is compared with a limit that ends the loop')
        res.need(found, 1, 'layout_loops')

    def loopcut(self, g, L, blocked):
        """The loop can be gone around without passing a blocked node."""
        if L.head.id in blocked: return False
        seen = set(); todo = [L.head]
        while todo:
            x = todo.pop()
            if x.id in blocked: continue
            for y, _ in x.succ:
                if y is L.head: return True
                if y.id in L.nodes and y.id not in seen: seen.add(y.id); todo.append(y)
        return False


def check(P, res, tier):
    C = Check(P, CK.effects(), res)
    C.loops()
    C.descent()
    C.texts()
    C.equs()
    C.loaders()
    C.passes()
