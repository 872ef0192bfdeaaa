"""Control-flow graphs over the extracted trees (short-circuit operators and scope exits are explicit)."""
from prog import kids, strip

LOOP = ('while', 'do', 'for', 'rangefor')


class Node:
    __slots__ = ('id', 'kind', 'n', 'succ', 'scope')

    def __init__(s, id, kind, n):
        s.id = id; s.kind = kind; s.n = n; s.succ = []

    def __repr__(s):
        return '<%d %s %s->%s>' % (s.id, s.kind, (s.n or {}).get('k') if isinstance(s.n, dict) else s.n, [(x[0].id, x[1] and x[1][0]) for x in s.succ])


class CFG:
    """kinds: entry, exit, call (call/ctor), asg, inc, var, ret, br, sw, dtor, throw, delete, new, lambda, join, iter"""

    def __init__(self, P, f):
        self.P = P; self.f = f; self.nodes = []
        self.entry = self.mk('entry', f)
        self.exit = self.mk('exit', f)
        self.abort = self.mk('abort', f)
        self.labels = {}; self.gotos = []
        self.scopes = []      # list of lists of dtor var nodes
        self.loops = []       # (break target, continue target or None, scope depth)
        self.handlers = []
        cur = self.entry
        for i in f.get('inits', ()):
            if 'e' in i:
                cur = self.expr(i['e'], cur)
                if cur and 'f' in i:
                    cur = self.add(cur, 'minit', i)
        if cur and f.get('body'):
            cur = self.stmt(f['body'], cur)
        if cur:
            r = self.add(cur, 'ret', {'k': 'return', 'l': 0, 'implicit': True})
            self.link(r, self.exit)
        for g, name, depth in self.gotos:
            if name in self.labels:
                self.link(g, self.labels[name])
        self._preds = None

    def mk(self, kind, n):
        x = Node(len(self.nodes), kind, n)
        self.nodes.append(x)
        return x

    def link(self, a, b, lab=None):
        a.succ.append((b, lab))

    def add(self, cur, kind, n):
        x = self.mk(kind, n)
        self.link(cur, x)
        return x

    @property
    def preds(self):
        if self._preds is None:
            self._preds = {x.id: [] for x in self.nodes}
            for x in self.nodes:
                for y, l in x.succ:
                    self._preds[y.id].append((x, l))
        return self._preds

    # ---------------------------------------------------------------- expressions
    def expr(self, e, cur):
        if cur is None or e is None: return cur
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            j = self.mk('join', e)
            self.cond(e, cur, j, j)
            return j
        if k == 'cond':
            t = self.mk('join', e); f = self.mk('join', e); j = self.mk('join', e)
            self.cond(e['c'], cur, t, f)
            a = self.expr(e['t'], t)
            if a: self.link(a, j)
            b = self.expr(e['e'], f)
            if b: self.link(b, j)
            return j
        for c in kids(e):
            cur = self.expr(c, cur)
            if cur is None: return None
        if k in ('call', 'ctor'):
            cur = self.add(cur, 'call', e)
            if self.handlers:
                for h in self.handlers[-1]: self.link(cur, h, ('exc', None))
            if e.get('noret'):
                self.link(cur, self.abort)
                return None
        elif k == 'asg': cur = self.add(cur, 'asg', e)
        elif k == 'un' and e['op'] in ('pre++', 'pre--', 'post++', 'post--'): cur = self.add(cur, 'inc', e)
        elif k in ('delete', 'new', 'lambda'): cur = self.add(cur, k, e)
        elif k == 'throw':
            cur = self.add(cur, 'throw', e)
            self.link(cur, self.handlers[-1][0] if self.handlers else self.abort)
            return None
        return cur

    def cond(self, e, cur, t, f):
        """Evaluate e as a condition from cur, jumping to t or f."""
        if cur is None: return
        k = e['k']
        if k == 'bin' and e['op'] == '&&':
            m = self.mk('join', e)
            self.cond(e['a'], cur, m, f)
            self.cond(e['b'], m, t, f)
            return
        if k == 'bin' and e['op'] == '||':
            m = self.mk('join', e)
            self.cond(e['a'], cur, t, m)
            self.cond(e['b'], m, t, f)
            return
        if k == 'un' and e['op'] == '!':
            self.cond(e['e'], cur, f, t); return
        if k == 'cast' and e.get('impl') and e['e']['k'] in ('bin', 'un') and e['e'].get('op') in ('&&', '||', '!'):
            self.cond(e['e'], cur, t, f); return
        if k == 'cond':
            a = self.mk('join', e); b = self.mk('join', e)
            self.cond(e['c'], cur, a, b)
            self.cond(e['t'], a, t, f)
            self.cond(e['e'], b, t, f)
            return
        if k == 'bin' and e['op'] in ('==', '!='):
            # comparison with a boolean literal
            for x, y in ((e['a'], e['b']), (e['b'], e['a'])):
                y0 = y
                while y0['k'] == 'cast': y0 = y0['e']
                x0 = x
                while x0['k'] == 'cast' and x0.get('impl'): x0 = x0['e']
                if y0['k'] == 'int' and self.P.ty(y0.get('ty', '')).get('bool') and self.P.ty(x0.get('ty', '')).get('bool'):
                    if (y0['v'] == 1) == (e['op'] == '=='): self.cond(x0, cur, t, f)
                    else: self.cond(x0, cur, f, t)
                    return
        cv = e.get('cv')
        if k == 'int' or (cv is not None and k in ('ref', 'cast')):
            v = e.get('v', cv)
            self.link(cur, t if v else f)
            return
        cur = self.expr(e, cur)
        if cur is None: return
        b = self.add(cur, 'br', e)
        self.link(b, t, ('T', e))
        self.link(b, f, ('F', e))

    # ---------------------------------------------------------------- statements
    def unwind(self, cur, depth):
        for sc in reversed(self.scopes[depth:]):
            for v in reversed(sc):
                cur = self.add(cur, 'dtor', v)
        return cur

    def var(self, v, cur):
        if 'init' in v: cur = self.expr(v['init'], cur)
        if cur is None: return None
        cur = self.add(cur, 'var', v)
        t = self.P.ty(v['ty'])
        if t.get('rec') and not t.get('ref') and self.scopes and not v.get('st'):
            if self.P.dtor_of(t['rec']): self.scopes[-1].append(v)
        return cur

    def enum_complete(self, s, vals):
        """A switch over an enumeration that names every enumerator has no other way out."""
        c = s['c']
        while c.get('k') == 'cast': c = c['e']
        o = self.P.enums.get(c.get('ty', '')) or self.P.enums.get((self.P.ty(c.get('ty', '')).get('enum')) or '')
        if not o: return False
        return all(any(a <= e['v'] <= b for a, b in vals) for e in o['e'])

    def stmt(self, s, cur):
        k = s['k']
        if cur is None:
            # unreachable unless it contains labels / cases
            if k in ('case', 'default', 'label') or k == 'block':
                pass
            else:
                return None
        if k == 'block':
            self.scopes.append([])
            for x in s['s']:
                cur = self.stmt(x, cur)
            sc = self.scopes[-1]
            if cur:
                for v in reversed(sc): cur = self.add(cur, 'dtor', v)
            self.scopes.pop()
            return cur
        if k == 'decl':
            for v in s['v']:
                cur = self.var(v, cur)
            return cur
        if k == 'null': return cur
        if k == 'if':
            self.scopes.append([])
            if 'init' in s: cur = self.stmt(s['init'], cur)
            if 'var' in s: cur = self.var(s['var'], cur)
            t = self.mk('join', s); f = self.mk('join', s); j = self.mk('join', s)
            self.cond(s['c'], cur, t, f)
            a = self.stmt(s['t'], t)
            b = self.stmt(s['e'], f) if s.get('e') else f
            if a: self.link(a, j)
            if b: self.link(b, j)
            cur = j if (a or b) else None
            if cur:
                for v in reversed(self.scopes[-1]): cur = self.add(cur, 'dtor', v)
            self.scopes.pop()
            return cur
        if k in ('while', 'for', 'rangefor', 'do'):
            self.scopes.append([])
            if 'init' in s: cur = self.stmt(s['init'], cur)
            out = self.mk('join', s); head = self.mk('join', s); body = self.mk('join', s); cont = self.mk('join', s)
            if k == 'rangefor':
                cur = self.expr(s['range'], cur)
            if cur is None: return None
            if k == 'do':
                self.link(cur, body)
            else:
                self.link(cur, head)
            if k == 'rangefor':
                it = self.add(head, 'iter', s)
                self.link(it, body, ('T', s)); self.link(it, out, ('F', s))
                b0 = self.var(s['var'], body)
            else:
                if k == 'while' and 'var' in s:
                    h2 = self.var(s['var'], head)
                else: h2 = head
                if s.get('c') is not None: self.cond(s['c'], h2, body, out)
                else: self.link(h2, body)
                b0 = body
            self.loops.append((out, cont, len(self.scopes)))
            e = self.stmt(s['b'], b0)
            self.loops.pop()
            if e: self.link(e, cont)
            c2 = cont
            if s.get('inc') is not None: c2 = self.expr(s['inc'], cont)
            if c2: self.link(c2, head)
            self.scopes.pop()
            return out
        if k == 'switch':
            self.scopes.append([])
            if 'init' in s: cur = self.stmt(s['init'], cur)
            if 'var' in s: cur = self.var(s['var'], cur)
            cur = self.expr(s['c'], cur)
            sw = self.add(cur, 'sw', s)
            out = self.mk('join', s)
            self.loops.append((out, None, len(self.scopes)))
            st = {'sw': sw, 'default': False, 'vals': []}
            self._sw = getattr(self, '_sw', []); self._sw.append(st)
            e = self.stmt(s['b'], None)
            self._sw.pop()
            self.loops.pop()
            if e: self.link(e, out)
            if not st['default']:
                if not self.enum_complete(s, st['vals']): self.link(sw, out, ('default', s, tuple(st['vals'])))
            else:
                # fill in the excluded values of the default edge
                for i, (y, lab) in enumerate(sw.succ):
                    if lab and lab[0] == 'default': sw.succ[i] = (y, ('default', s, tuple(st['vals'])))
            self.scopes.pop()
            return out
        if k in ('case', 'default'):
            st = self._sw[-1]
            n = self.mk('join', s)
            if cur: self.link(cur, n)
            if k == 'case':
                self.link(st['sw'], n, ('case', st['sw'].n, (s['v'], s.get('v2', s['v']))))
                st['vals'].append((s['v'], s.get('v2', s['v'])))
            else:
                self.link(st['sw'], n, ('default', st['sw'].n, ()))
                st['default'] = True
            return self.stmt(s['s'], n)
        if k == 'break':
            t, _, d = self.loops[-1]
            cur = self.unwind(cur, d)
            self.link(cur, t)
            return None
        if k == 'continue':
            for out, cont, d in reversed(self.loops):
                if cont is not None:
                    cur = self.unwind(cur, d)
                    self.link(cur, cont)
                    return None
            return None
        if k == 'return':
            e = s.get('e')
            if e is not None and self.P.ty(self.f['rt']).get('bool') and e['k'] in ('bin', 'un', 'cond', 'call', 'cast', 'ref', 'mem') and not ('cv' in e):
                x = e
                if x['k'] == 'bin' and x['op'] in ('&&', '||') or x['k'] == 'un' and x['op'] == '!' or x['k'] == 'cond' or x['k'] == 'bin':
                    t = self.mk('join', s); f = self.mk('join', s)
                    self.cond(e, cur, t, f)
                    for jn, v in ((t, 1), (f, 0)):
                        r = self.unwind(jn, 0)
                        r = self.add(r, 'ret', {'k': 'return', 'l': s['l'], 'e': {'k': 'int', 'v': v, 'ty': 'bool', 'l': s['l']}, 'orig': e})
                        self.link(r, self.exit)
                    return None
            if e is not None: cur = self.expr(e, cur)
            if cur is None: return None
            cur = self.unwind(cur, 0)
            r = self.add(cur, 'ret', s)
            self.link(r, self.exit)
            return None
        if k == 'goto':
            self.gotos.append((cur, s['n'], 0))
            return None
        if k == 'label':
            n = self.mk('join', s)
            if cur: self.link(cur, n)
            self.labels[s['n']] = n
            return self.stmt(s['s'], n)
        if k == 'try':
            hs = [self.mk('join', h) for h in s['h']]
            j = self.mk('join', s)
            for h in hs: self.link(cur, h, ('exc', None))
            self.handlers.append(hs)
            e = self.stmt(s['b'], cur)
            self.handlers.pop()
            if e: self.link(e, j)
            for h, hn in zip(s['h'], hs):
                x = self.stmt(h, hn)
                if x: self.link(x, j)
            return j
        # expression statement
        return self.expr(s, cur)


_cache = {}


def cfg(P, fid):
    key = (id(P), fid)
    if key not in _cache:
        _cache[key] = CFG(P, P.fn[fid])
    return _cache[key]


def dominators(g):
    """node id -> set of dominating node ids (small graphs)."""
    order = []
    seen = set()

    def dfs():
        st = [(g.entry, iter(g.entry.succ))]
        seen.add(g.entry.id)
        while st:
            x, it = st[-1]
            for y, l in it:
                if y.id not in seen:
                    seen.add(y.id); st.append((y, iter(y.succ))); break
            else:
                order.append(x); st.pop()
    dfs()
    order.reverse()
    full = set(x.id for x in order)
    dom = {x.id: set(full) for x in order}
    dom[g.entry.id] = {g.entry.id}
    ch = True
    while ch:
        ch = False
        for x in order:
            if x is g.entry: continue
            ps = [p.id for p, l in g.preds[x.id] if p.id in full]
            if not ps: continue
            s = set.intersection(*(dom[p] for p in ps)) | {x.id}
            if s != dom[x.id]:
                dom[x.id] = s; ch = True
    return dom
