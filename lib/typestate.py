"""Interprocedural, branch-correlated typestate propagation (property simulation).

A state is (q, env): q is the automaton state, env the known constant values of the function's
own boolean/enum variables and call results.  Function summaries map (q, constant arguments) to a
set of (q', returned constant or None)."""
from cfg import cfg
from prog import strip
from effects import overlap


class Spec:
    """Subclass and override."""
    def interesting(self, fid):            # functions whose calls are events
        return False

    def on_call(self, ts, fid, node, q, argv, ctx):  # -> None | iterable of (q', ret)
        return None

    def on_ext(self, ts, node, q, argv, ctx):        # external or body-less call -> None | iterable
        return None

    def on_node(self, ts, cn, q, ctx):           # any cfg node; may return a new q
        return None

    def on_exit(self, ts, fid, q, ret, ctx):
        return None


class Ctx:
    def __init__(s, fid, stack, env): s.fid = fid; s.stack = stack; s.env = env


class Typestate:
    def __init__(self, P, spec, eff=None, depth=60):
        self.P = P; self.spec = spec; self.E = eff
        self.memo = {}
        self.memc = getattr(spec, 'mem_const', None); self.curq = None
        self.visited = 0
        self.active = []
        self.changed = False
        self._rel = {}
        self.relevant = self._relevance()

    def _relevance(self):
        P = self.P
        rel = set(i for i in P.fn if self.spec.interesting(i))
        if hasattr(self.spec, 'interesting_node'):
            from prog import walk_fn
            for i, f in P.fn.items():
                if i not in rel and any(self.spec.interesting_node(n) for n in walk_fn(f)): rel.add(i)
        rev = {}
        for i in P.fn:
            for j in P.callees(i): rev.setdefault(j, set()).add(i)
        todo = list(rel); seen = set(rel)
        while todo:
            x = todo.pop()
            for y in rev.get(x, ()):
                if y not in seen: seen.add(y); todo.append(y)
        # callers of body-less interesting functions
        return seen

    # ------------------------------------------------------------------
    def run(self, fid, q, argc=(), maxiter=40):
        for _ in range(maxiter):
            self.changed = False
            self.done = set()
            r = self.summary(fid, q, tuple(argc), ())
            if not self.changed: return r
        return r

    def summary(self, fid, q, argc, stack):
        key = (fid, q, argc)
        if key in self.done:
            return self.memo.get(key, set())
        self.done.add(key)
        cur = self.memo.setdefault(key, set())
        out = self._explore(fid, q, argc, stack + ((fid,),))
        if not out <= cur:
            cur |= out
            self.changed = True
        return cur

    # ------------------------------------------------------------------ constant evaluation
    def tracked(self, fid):
        f = self.P.fn[fid]
        if '_tracked' not in f:
            s = set()
            g = cfg(self.P, fid)
            st = []
            for n in g.nodes:
                if n.kind == 'br': st.append(n.n)
                elif n.kind == 'sw': st.append(n.n['c'])
                elif n.kind == 'ret' and n.n.get('e') is not None: st.append(n.n['e'])
                elif n.kind == 'call': st.extend(n.n.get('args', ()))
                elif n.kind in ('var',) and 'init' in n.n: st.append(n.n['init'])
                elif n.kind == 'asg': st.append(n.n['b'])
            from prog import walk
            for e in st:
                for x in walk(e):
                    if x['k'] == 'ref' and x.get('dk') in ('local', 'parm'): s.add(('v', x['id']))
                    elif x['k'] in ('mem',) or (x['k'] == 'ref' and x.get('dk') == 'global'):
                        kk = self.mkey(x)
                        if kk: s.add(kk)
            f['_tracked'] = s
        return f['_tracked']

    def mkey(self, x):
        """Key of a trackable memory cell: chain of fields rooted at this or a global."""
        p = []
        y = x
        while y['k'] == 'mem':
            p.append(y['q']); y = y['b']
        if y['k'] == 'this': return ('m', 'this', tuple(reversed(p)))
        if y['k'] == 'ref' and y.get('dk') == 'global': return ('m', y['q'], tuple(reversed(p)))
        return None

    def scalar(self, ty):
        t = self.P.ty(ty)
        return t.get('bool') or 'enum' in t or 'w' in t or 'ptr' in t

    def const(self, e, env):
        """Constant value of e under env, or None."""
        k = e['k']
        if 'cv' in e:
            v = e['cv']
            return v if not isinstance(v, str) else int(v[1:])
        if k == 'int': return e.get('v') if not isinstance(e.get('v'), str) else int(e['v'][1:])
        if k == 'nullptr': return 0
        if k == 'cast': 
            v = self.const(e['e'], env)
            if v is None: return None
            if self.P.ty(e.get('ty', '')).get('bool'): return 1 if v else 0
            return v
        if k == 'ref':
            if e.get('dk') in ('local', 'parm'): return env.get(('v', e['id']))
            if e.get('dk') == 'global':
                if self.memc is not None:
                    v = self.memc(self.curq, e)
                    if v is not None: return v
                return env.get(('m', e['q'], ()))
            return None
        if k == 'mem':
            if self.memc is not None:
                v = self.memc(self.curq, e)
                if v is not None: return v
            kk = self.mkey(e)
            return env.get(kk) if kk else None
        if k == 'cond':
            c = self.const(e['c'], env)
            if c is None:
                a, b = self.const(e['t'], env), self.const(e['e'], env)
                return a if a == b else None
            return self.const(e['t'] if c else e['e'], env)
        if k == 'call':
            if ('c', id(e)) not in env and e.get('name') in ('std::operator|', 'std::operator&') and len(e['args']) == 2:
                a, b = self.const(e['args'][0], env), self.const(e['args'][1], env)
                if a is not None and b is not None: return a | b if e['name'].endswith('|') else a & b
            return env.get(('c', id(e)))
        if k == 'un' and e['op'] == '!':
            v = self.const(e['e'], env)
            return None if v is None else int(not v)
        if k == 'bin':
            if e['op'] == '&&':
                a, b = self.const(e['a'], env), self.const(e['b'], env)
                if a == 0 or b == 0: return 0
                if a and b: return 1
                return None
            if e['op'] == '||':
                a, b = self.const(e['a'], env), self.const(e['b'], env)
                if a or b: return 1
                if a == 0 and b == 0: return 0
                return None
            a, b = self.const(e['a'], env), self.const(e['b'], env)
            if a is None or b is None or isinstance(a, str) or isinstance(b, str): return None
            op = e['op']
            try:
                return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b),
                        '|': lambda: a | b, '&': lambda: a & b}.get(op, lambda: None)()
            except TypeError:
                return None
        if k == 'asg' and e['op'] == '=': return self.const(e['b'], env)
        return None

    def assume(self, e, val, env, tr):
        """Refine env with 'e is truthy == val'; returns None if contradictory."""
        k = e['k']
        v = self.const(e, env)
        if v is not None and bool(v) != val: return None
        if k == 'cast' and e.get('impl'):
            return self.assume(e['e'], val, env, tr)
        if k == 'ref' and e.get('dk') in ('local', 'parm') and self.P.ty(e.get('ty', '')).get('bool'):
            if ('v', e['id']) in tr:
                env = dict(env); env[('v', e['id'])] = int(val)
            return env
        if k == 'mem' or (k == 'ref' and e.get('dk') == 'global'):
            kk = self.mkey(e)
            if kk and self.P.ty(e.get('ty', '')).get('bool'):
                env = dict(env); env[kk] = int(val)
            elif kk and not val:
                env = dict(env); env[kk] = 0
            return env
        if k == 'call' and self.P.ty(e.get('ty', '')).get('bool'):
            env = dict(env); env[('c', id(e))] = int(val)
            return env
        if k == 'bin' and e['op'] in ('==', '!='):
            if (e['op'] == '==') == val:
                for x, y in ((e['a'], e['b']), (e['b'], e['a'])):
                    c = self.const(y, env)
                    if c is not None:
                        z = x
                        while z['k'] == 'cast': z = z['e']
                        key = None
                        if z['k'] == 'ref' and z.get('dk') in ('local', 'parm'): key = ('v', z['id'])
                        elif z['k'] in ('mem', 'ref'): key = self.mkey(z)
                        elif z['k'] == 'call': key = ('c', id(z))
                        if key:
                            env = dict(env); env[key] = c
                            return env
        return env

    def kill(self, env, fid, node, targets):
        """Forget memory cells a call may have written."""
        mem = [k for k in env if k[0] == 'm']
        if not mem: return env
        if self.E is None:
            return {k: v for k, v in env.items() if k[0] != 'm'}
        dead = []
        for k in mem:
            if k[1] == 'this':
                # written through any alias of the class field
                hit = any((w[1] and k[2] and w[1][-1] == k[2][-1]) or (w[1] and w[1][0] in k[2]) or not w[1] for t in targets for w in self.E.W[t] if w[0][0] != 'G')
            else:
                hit = any(overlap(self.P, w, (('G', k[1]), k[2])) for t in targets for w in self.E.W[t])
            if hit: dead.append(k)
        if not dead: return env
        return {k: v for k, v in env.items() if k not in dead}

    # ------------------------------------------------------------------
    def _explore(self, fid, q0, argc, stack):
        P = self.P; f = P.fn[fid]; g = cfg(P, fid); tr = self.tracked(fid)
        env0 = {}
        for i, v in argc:
            if i < len(f['params']): env0[('v', f['params'][i]['id'])] = v
        out = set()
        # property simulation: one joined environment per (node, automaton state)
        facts = {(g.entry.id, q0): env0}
        work = [(g.entry, q0)]
        while work:
            node, q = work.pop()
            env = facts[(node.id, q)]
            self.visited += 1
            res = self._transfer(fid, node, q, env, tr, stack, out)
            for q2, env2, only in res:
                self.curq = q2
                for y, lab in node.succ:
                    e3 = env2
                    if lab:
                        if lab[0] in ('T', 'F') and lab[1].get('k') != 'rangefor':
                            e3 = self.assume(lab[1], lab[0] == 'T', env2, tr)
                            if e3 is None: continue
                        elif lab[0] == 'case':
                            v = self.const(lab[1]['c'], env2)
                            if v is not None and not isinstance(v, str) and not (lab[2][0] <= v <= lab[2][1]): continue
                            if lab[2][0] == lab[2][1]:
                                z = lab[1]['c']
                                while z['k'] == 'cast': z = z['e']
                                kk = ('v', z['id']) if z['k'] == 'ref' and z.get('dk') in ('local', 'parm') else (self.mkey(z) if z['k'] in ('mem', 'ref') else None)
                                if kk:
                                    e3 = dict(env2); e3[kk] = lab[2][0]
                        elif lab[0] == 'default':
                            v = self.const(lab[1]['c'], env2)
                            if v is not None and not isinstance(v, str) and any(a <= v <= b for a, b in lab[2]): continue
                    e3 = {k: v for k, v in e3.items() if k in tr or k[0] in ('c', 'm')}
                    # call results live only until the branch consuming them
                    if node.kind in ('br', 'asg', 'var', 'ret', 'sw'):
                        e3 = {k: v for k, v in e3.items() if k[0] != 'c'}
                    key = (y.id, q2)
                    old = facts.get(key)
                    if old is None:
                        facts[key] = e3
                        work.append((y, q2))
                    else:
                        new = {k: v for k, v in old.items() if k in e3 and e3[k] == v}
                        if len(new) != len(old):
                            facts[key] = new
                            work.append((y, q2))
        return out

    def _transfer(self, fid, node, q, env, tr, stack, out):
        P = self.P; spec = self.spec
        k = node.kind
        self.curq = q
        ctx = Ctx(fid, stack, env)
        ctx.node = node
        q2 = spec.on_node(self, node, q, ctx)
        if q2 is not None: q = q2; self.curq = q
        if k == 'exit':
            return []
        if k == 'abort': return []
        if k == 'call':
            return self._call(fid, node, q, env, stack, ctx)
        if k == 'dtor':
            d = P.dtor_of(P.ty(node.n['ty']).get('rec'))
            if d and d in self.relevant:
                rs = []
                r = spec.on_call(self, d, node.n, q, {}, ctx)
                if r is None: r = self.summary(d, q, (), stack)
                for q3, ret in r: rs.append((q3, env, None))
                return rs
            return [(q, env, None)]
        if k == 'var':
            n = node.n
            key = ('v', n['id']) if 'id' in n else None
            if key in tr and 'init' in n and self.scalar(n['ty']):
                c = self.const(n['init'], env)
                env = dict(env)
                if c is not None: env[key] = c
                else: env.pop(key, None)
            elif key: env = {a: b for a, b in env.items() if a != key}
            return [(q, env, None)]
        if k == 'asg':
            n = node.n; a = n['a']
            key = None
            if a['k'] == 'ref' and a.get('dk') in ('local', 'parm'): key = ('v', a['id'])
            elif a['k'] in ('mem', 'ref'): key = self.mkey(a)
            if key:
                env = dict(env)
                if n['op'] == '=' and self.scalar(a.get('ty', '')):
                    c = self.const(n['b'], env)
                    if c is not None: env[key] = c
                    else: env.pop(key, None)
                elif n['op'] in ('|=', '&=') and key in env:
                    c = self.const(n['b'], env)
                    if n['op'] == '|=':
                        if c is not None: env[key] = env[key] | c
                        elif env[key] == 1 and P.ty(a['ty']).get('bool'): pass
                        else: env.pop(key)
                    else:
                        if c is not None: env[key] = env[key] & c
                        elif env[key] == 0: pass
                        else: env.pop(key)
                elif n['op'] == '|=' and P.ty(a['ty']).get('bool') and self.const(n['b'], env) == 1:
                    env[key] = 1
                else: env.pop(key, None)
                if key[0] == 'm':
                    for kk in list(env):
                        if kk != key and kk[0] == 'm' and kk[1] == key[1] and (kk[2][:len(key[2])] == key[2]): env.pop(kk)
            return [(q, env, None)]
        if k == 'inc':
            a = node.n['e']
            if a['k'] == 'ref' and a.get('dk') in ('local', 'parm'):
                env = {x: y for x, y in env.items() if x != ('v', a['id'])}
            elif a['k'] in ('mem', 'ref'):
                kk = self.mkey(a)
                env = {x: y for x, y in env.items() if x != kk}
            return [(q, env, None)]
        if k == 'ret':
            e = node.n.get('e')
            ret = None
            if e is not None and self.scalar(P.fn[fid]['rt']):
                ret = self.const(e, env)
                if not isinstance(ret, (int, type(None))): ret = None
            r2 = spec.on_exit(self, fid, q, ret, ctx)
            out.add((q if r2 is None else r2, ret))
            return []
        return [(q, env, None)]

    def _call(self, fid, node, q, env, stack, ctx):
        P = self.P; spec = self.spec; n = node.n
        ts = P.targets(n)
        argv = {}
        for i, a in enumerate(n.get('args', ())):
            c = self.const(a, env)
            if c is not None and isinstance(c, int): argv[i] = c
        outs = []

        def push(q2, ret, env2):
            e = dict(env2)
            # a variable passed by reference to an unknown callee is forgotten
            for a, m in zip(n.get('args', ()), n.get('pm', '')):
                z = a
                while z['k'] == 'cast': z = z['e']
                if m in ('n',) and z['k'] == 'ref' and z.get('dk') in ('local', 'parm'): e.pop(('v', z['id']), None)
                if m == 'q' and z['k'] == 'un' and z['op'] == '&' and z['e']['k'] == 'ref': e.pop(('v', z['e'].get('id')), None)
            if ret is not None: e[('c', id(n))] = ret
            else: e.pop(('c', id(n)), None)
            outs.append((q2, e, None))
        if not ts:
            # lambdas handed to library code are assumed to run there
            r = spec.on_ext(self, n, q, argv, ctx)
            if r is None:
                lam = [a for a in n.get('args', ()) if strip(a)['k'] == 'lambda']
                qs = {q}
                for a in lam:
                    lf = strip(a)['fn']
                    if lf in self.relevant:
                        nq = set(qs)
                        for x in qs:
                            for q2, _ in self.summary(lf, x, (), stack): nq.add(q2)
                        qs = nq
                for x in qs: push(x, None, env)
            else:
                for q2, ret in r: push(q2, ret, env)
            return outs
        for t in ts:
            r = spec.on_call(self, t, n, q, argv, ctx)
            e2 = self.kill(env, fid, n, [t])
            if r is None:
                if t in self.relevant:
                    r = self.summary(t, q, tuple(sorted(argv.items())), stack)
                else:
                    r = [(q, self.simple_ret(t))]
            for q2, ret in r: push(q2, ret, e2)
        return outs

    def simple_ret(self, t):
        f = self.P.fn[t]
        b = f.get('body')
        if b and b['k'] == 'block' and len(b['s']) == 1 and b['s'][0]['k'] == 'return' and 'e' in b['s'][0]:
            c = self.const(b['s'][0]['e'], {})
            return c if isinstance(c, int) else None
        return None


def stack_str(P, stack):
    return ' -> '.join(P.fn[s[0]]['name'] for s in stack)
