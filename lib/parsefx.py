"""Effects under a hypothesis about the parser's state.

live(P, fid, H) finds the parts of a function that can run when the fields named in the hypothesis H
(field -> value) have those values; Under(P, H) is the mod/ref analysis restricted to those parts."""
from effects import Effects
from prog import walk, walk_fn, kids, strip
from cfg import cfg


class Hyp:
    def __init__(self, P, fields):
        self.P = P; self.f = dict(fields)      # qualified field name -> 0/1
        self.memo = {}; self.active = set(); self.dead = {}

    # ------------------------------------------------------------------ conditions
    def val(self, e, env=None, depth=0):
        """Value of an expression under the hypothesis: an int, or None if unknown."""
        env = env or {}
        if depth > 12: return None
        k = e['k']
        if 'cv' in e:
            v = e['cv']
            return (int(v[1:]) if isinstance(v, str) else v) if not isinstance(v, float) else None
        if k == 'int':
            v = e.get('v'); return int(v[1:]) if isinstance(v, str) else v
        if k == 'cast':
            v = self.val(e['e'], env, depth + 1)
            return None if v is None else (int(bool(v)) if self.P.ty(e.get('ty', '')).get('bool') else v)
        if k == 'mem' and e.get('q') in self.f: return self.f[e['q']]
        if k == 'ref' and e.get('dk') in ('local', 'parm'): return env.get(e.get('id'))
        if k == 'un' and e['op'] == '!':
            v = self.val(e['e'], env, depth + 1)
            return None if v is None else int(not v)
        if k == 'cond':
            c = self.val(e['c'], env, depth + 1)
            if c is not None: return self.val(e['t'] if c else e['e'], env, depth + 1)
            a, b = self.val(e['t'], env, depth + 1), self.val(e['e'], env, depth + 1)
            return a if a == b else None
        if k == 'bin':
            a, b = self.val(e['a'], env, depth + 1), self.val(e['b'], env, depth + 1)
            op = e['op']
            if op == '&&': return 0 if a == 0 or b == 0 else (1 if a and b else None)
            if op == '||': return 1 if a or b else (0 if a == 0 and b == 0 else None)
            if op in ('==', '!=') and a is not None and b is not None: return int((a == b) == (op == '=='))
            return None
        if k == 'call':
            ts = self.P.targets(e)
            if not ts or not self.P.ty(e.get('ty', '')).get('bool'): return None
            vs = {self.returns(t) for t in ts}
            return vs.pop() if len(vs) == 1 else None
        return None

    def returns(self, fid):
        """Value returned by a function under the hypothesis, if it is always the same."""
        if fid in self.memo: return self.memo[fid]
        if fid in self.active or fid not in self.P.fn: return None
        self.active.add(fid)
        try:
            f = self.P.fn[fid]
            dead = self.live(fid)
            env = self.locals(fid)
            vs = {self.val(n['e'], env) for n in walk_fn(f) if n.get('k') == 'return' and 'e' in n and id(n) not in dead}
            v = vs.pop() if len(vs) == 1 else None
        finally: self.active.discard(fid)
        self.memo[fid] = v
        return v

    def locals(self, fid):
        """Local booleans initialised once with a known value."""
        f = self.P.fn[fid]
        init, changed = {}, set()
        for n in walk_fn(f):
            k = n.get('k')
            if k == 'var' and 'id' in n and 'init' in n and self.P.ty(n['ty']).get('bool'): init[n['id']] = n['init']
            elif k == 'asg' and n['a'].get('k') == 'ref': changed.add(n['a'].get('id'))
            elif k == 'un' and n['op'] in ('&', 'pre++', 'post++', 'pre--', 'post--') and n['e'].get('k') == 'ref': changed.add(n['e'].get('id'))
            elif k in ('call', 'ctor'):
                for a, m in zip(n.get('args', ()), n.get('pm', '')):
                    if m == 'n' and a.get('k') == 'ref': changed.add(a.get('id'))
        env = {}
        for i, e in init.items():
            if i in changed: continue
            v = self.val(e, env)
            if v is not None: env[i] = v
        return env

    # ------------------------------------------------------------------ statements
    def live(self, fid):
        """ids of the nodes of a function that cannot run under the hypothesis."""
        if fid in self.dead: return self.dead[fid]
        f = self.P.fn[fid]
        dead = set()
        self.dead[fid] = dead
        if not f.get('body'): return dead
        if any(n.get('k') in ('goto', 'label') for n in walk(f['body'])): return dead
        for n in walk(f['body']):
            if n.get('k') == 'lambda': pass
        env = self.locals(fid)

        def kill(n):
            if n is None: return
            for x in walk(n): dead.add(id(x))

        def ex(e):
            if e is None: return
            k = e.get('k')
            if k == 'bin' and e['op'] in ('&&', '||'):
                v = self.val(e['a'], env)
                ex(e['a'])
                if v is not None and bool(v) == (e['op'] == '||'): kill(e['b'])
                else: ex(e['b'])
                return
            if k == 'cond':
                v = self.val(e['c'], env)
                ex(e['c'])
                if v is None: ex(e['t']); ex(e['e'])
                else:
                    kill(e['e'] if v else e['t']); ex(e['t'] if v else e['e'])
                return
            for c in kids(e): ex(c)

        def st(s):
            """marks dead parts; tells whether control can leave the statement normally"""
            if s is None: return True
            k = s.get('k')
            if k in ('block', 'other'):
                ok = True
                for x in s['s']:
                    if x is None: continue
                    if not ok and x.get('k') in ('case', 'default'): ok = True
                    if not ok: kill(x)
                    else: ok = st(x)
                return ok
            if k == 'if':
                st(s.get('init')); st(s.get('var')); ex(s['c'])
                v = self.val(s['c'], env)
                if v is None:
                    a = st(s['t']); b = st(s.get('e')) if s.get('e') is not None else True
                    return a or b
                if v:
                    kill(s.get('e')); return st(s['t'])
                kill(s['t'])
                return st(s['e']) if s.get('e') is not None else True
            if k in ('while', 'for', 'rangefor', 'do'):
                if k == 'for': st(s.get('init'))
                v = self.val(s['c'], env) if s.get('c') is not None else None
                ex(s.get('c'))
                if v == 0 and k in ('while', 'for'):
                    kill(s['b']); kill(s.get('inc')); return True
                if k == 'rangefor': ex(s.get('range'))
                st(s['b']); ex(s.get('inc'))
                return True
            if k == 'switch':
                st(s.get('init')); ex(s['c']); st(s['b'])
                return True
            if k in ('case', 'default'):
                return st(s['s'])
            if k == 'try':
                a = st(s['b'])
                for h in s['h']: a = st(h) or a
                return a
            if k == 'return':
                ex(s.get('e')); return False
            if k in ('break', 'continue'): return False
            if k == 'decl':
                for v in s['v']: ex(v.get('init'))
                return True
            ex(s)
            return k != 'throw'
        st(f['body'])
        # a local object that is never created is not destroyed either
        return dead


def same(a, b):
    """The same variable, or the same field of the same object."""
    a, b = strip(a), strip(b)
    if a.get('k') != b.get('k'): return False
    if a['k'] == 'ref': return a.get('id') == b.get('id') and a.get('q') == b.get('q') and a.get('dk') == b.get('dk') and a.get('n') == b.get('n')
    if a['k'] == 'mem': return a.get('q') == b.get('q') and same(a['b'], b['b'])
    return a['k'] == 'this'


class Under(Effects):
    """Mod/ref analysis of the parts that can run under a hypothesis; calls of functions for which cut(name) holds are left out."""
    def __init__(self, P, fields, cut=lambda name: False):
        self.hyp = Hyp(P, fields); self.cut = cut
        super().__init__(P)

    def visit(self, n):
        if id(n) in self.hyp.live(self.fid): return
        if n.get('k') in ('call', 'ctor'):
            t = self.P.fn.get(n.get('fn'))
            if t is not None and self.cut(t['name']): return
        if n.get('k') == 'asg' and n['op'] == '=':
            # an assignment of what is there already
            b = strip(n['b'])
            while b.get('k') == 'cond':
                v = self.hyp.val(b['c'], self.hyp.locals(self.fid))
                if v is None: break
                b = strip(b['t'] if v else b['e'])
            if same(b, n['a']): return
        super().visit(n)

    def reach(self, root):
        """Functions that can run below a function under the hypothesis (caller of each), and their calls of library functions."""
        P = self.P
        seen = {root: None}; todo = [root]; ext = []
        while todo:
            f = todo.pop(); dead = self.hyp.live(f)
            for n in walk_fn(P.fn[f]):
                if id(n) in dead or n.get('k') not in ('call', 'ctor', 'lambda'): continue
                ts = P.targets(n) if n['k'] != 'lambda' else [n['fn']]
                ts = [t for t in ts if t in P.fn]
                for t in ts:
                    if not self.cut(P.fn[t]['name']) and t not in seen: seen[t] = f; todo.append(t)
                if not ts and n['k'] != 'lambda': ext.append((f, n))
        return seen, ext
