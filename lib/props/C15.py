from cfg import cfg, dominators
from prog import walk, walk_fn, tail, strip
from typestate import Typestate, Spec
from front import Broken
import check as CK
import progress as G

RULE = """leaving a construct restores what entering it changed: (1) every stack and counter that something opens and closes (open conditionals, token sources, suppressed errors) has the same level at every exit of every function, whichever path is taken, and the level it was entered with at the end of every outermost function; loops never add up; (2) a setting that is on for the time of a nested parse is off again at every exit, and still on after anything nested inside; (3) an attempt to parse something that fails without an error gives back every token it took, because something else is tried at the same place; (4) no statement is tried with the error of an earlier one, which would drop it
(interprocedural typestate with levels and branch-correlated constants over every parsing function, call summaries per level)"""
LEVEL = 'other'
ASSUMPTIONS = ['exceptions are not followed (the code throws none itself)',
               'a template parsed while another one is being parsed has the same source location, so ending the inner one early is harmless',
               'a setting restored from a value the analysis cannot follow is taken to be restored correctly']
PUSH = ('push_back', 'emplace_back', 'push', 'emplace')
POP = ('pop_back', 'pop')
LIM = 3
# settings for which a nested scope computes the same value again
IDEMPOTENT = ('overrideFileInfo',)
NOTNEST = ('error', 'recursionLimitReached')


def line(P, fid, l): return '%s:%s (%s)' % (P.fn[fid]['file'], l, P.fn[fid]['name'])


def cell(e):
    """Name of the field or global an expression denotes, or None."""
    while e.get('k') == 'cast': e = e['e']
    if e.get('k') == 'mem': return e['q']
    if e.get('k') == 'ref' and e.get('dk') == 'global': return e['q']
    return None


def isbool(P, e): return bool(P.ty(e.get('ty', '')).get('bool'))


def konst(e):
    while e.get('k') == 'cast' and 'cv' not in e: e = e['e']
    v = e.get('cv', e.get('v') if e.get('k') in ('int', 'bool') else None)
    return v if isinstance(v, (int, bool)) else None


def events(P):
    """Per function: the opening and closing operations on each stack, counter and setting."""
    st = {}; fl = {}
    for i, f in P.fn.items():
        if not f.get('body') and not f.get('inits'): continue
        for n in walk_fn(f):
            k = n.get('k')
            if k == 'call' and 'obj' in n:
                t = tail(n.get('name', ''))
                c = cell(n['obj']) if t in PUSH + POP else None
                if c: st.setdefault(('stack', c), {}).setdefault(i, []).append((n, 1 if t in PUSH else -1))
            elif k == 'un' and n['op'] in ('++', '--', '++_', '--_', 'pre++', 'pre--', 'post++', 'post--') or k == 'inc':
                c = cell(n['e'])
                if c: st.setdefault(('count', c), {}).setdefault(i, []).append((n, 1 if '+' in n['op'] else -1))
            elif k == 'asg':
                c = cell(n['a'])
                if not c: continue
                if n['op'] in ('+=', '-=') and konst(n['b']) == 1:
                    st.setdefault(('count', c), {}).setdefault(i, []).append((n, 1 if n['op'] == '+=' else -1))
                elif n['op'] == '=' and isbool(P, n['a']):
                    fl.setdefault(c, {}).setdefault(i, []).append((n, konst(n['b'])))
    return st, fl


class Level(Spec):
    """q = level relative to the entry of the function analysed"""
    def __init__(self, P, key, ev):
        self.P = P; self.key = key; self.ev = ev
        self.op = {id(n): d for l in ev.values() for n, d in l}
        c = key[1].rsplit('::', 1)[0]
        self.owner = c if c in P.rec else None
        # a closing routine that guards against closing too often
        self.guard = set()
        for f in ev:
            if len(ev[f]) == 1 and len((P.fn[f].get('body') or {}).get('s', ())) <= 2:
                for n in walk_fn(P.fn[f]):
                    if n.get('k') in ('mem', 'ref') and cell(n) == key[1]: self.guard.add(id(n))

    def mem_const(self, q, e): return 1 if id(e) in self.guard else None

    def interesting(self, fid): return fid in self.ev

    def own(self, t):
        f = self.P.fn[t]
        return f.get('cls') == self.owner and (f.get('ctor') or f.get('dtor') or tail(f['name']) in (tail(self.owner or ''), '~' + tail(self.owner or '')))

    def clamp(self, v): return max(-LIM, min(LIM, v))

    def on_call(self, ts, t, n, q, argv, ctx):
        if id(n) in self.op: return [(self.clamp(q + self.op[id(n)]), None)]
        if self.owner and self.own(t): return [(q, None)]
        if t not in ts.relevant: return None
        out = []
        for d, r in ts.summary(t, 0, tuple(sorted(argv.items())), ctx.stack): out.append((self.clamp(q + d), r))
        return out

    def on_ext(self, ts, n, q, argv, ctx):
        if id(n) in self.op: return [(self.clamp(q + self.op[id(n)]), None)]
        return None

    def on_node(self, ts, cn, q, ctx):
        if cn.kind in ('inc', 'asg') and id(cn.n) in self.op: return self.clamp(q + self.op[id(cn.n)])
        return None


class Flag(Spec):
    """q = (value of the setting or '?', values remembered in local variables)"""
    def __init__(self, P, key, ev):
        self.P = P; self.key = key; self.ev = ev
        self.op = {id(n): (n, v) for l in ev.values() for n, v in l}
        c = key.rsplit('::', 1)[0]
        self.owner = c if c in P.rec else None

    def other(self, t, n):
        """The call works on an object of its own."""
        if self.owner is None: return False
        f = self.P.fn[t]
        if f.get('cls') == self.owner and (f.get('ctor') or f.get('dtor') or tail(f['name']) in (tail(self.owner), '~' + tail(self.owner))): return True
        o = n.get('obj') if isinstance(n, dict) else None
        while o is not None and o.get('k') in ('cast', 'mem') and cell(o) != self.key: o = o.get('e') or o.get('b')
        return bool(o) and o.get('k') == 'ref' and o.get('dk') == 'local' and self.P.ty(o.get('ty', '')).get('rec') == self.owner and 'ptr' not in self.P.ty(o.get('ty', '')) and o.get('id') in self.objs(n)

    def objs(self, n):
        if not hasattr(self, '_objs'):
            self._objs = {x['id'] for f in self.P.fn.values() if f.get('body') for x in walk_fn(f) if x.get('k') == 'var' and 'id' in x and self.P.ty(x['ty']).get('rec') == self.owner and not self.P.ty(x['ty']).get('ref')}
        return self._objs

    def interesting(self, fid): return fid in self.ev

    def mem_const(self, q, e):
        if q is None or cell(e) != self.key or q[0] == '?': return None
        return q[0]

    def value(self, e, q):
        e = strip(e) if e.get('k') == 'cast' else e
        while e.get('k') == 'cast': e = e['e']
        c = konst(e)
        if c is not None: return int(bool(c))
        if cell(e) == self.key: return q[0]
        if e.get('k') == 'ref' and 'id' in e: return dict(q[1]).get(e['id'], '?')
        return '?'

    def on_call(self, ts, t, n, q, argv, ctx):
        if t not in ts.relevant: return None
        if self.other(t, n):
            return [(q, r) for q2, r in ts.summary(t, (0, ()), tuple(sorted(argv.items())), ctx.stack)]
        return [((q2[0], q[1]), r) for q2, r in ts.summary(t, (q[0], ()), tuple(sorted(argv.items())), ctx.stack)]

    def on_node(self, ts, cn, q, ctx):
        if cn.kind == 'asg' and id(cn.n) in self.op: return (self.value(cn.n['b'], q), q[1])
        if cn.kind == 'var' and 'init' in cn.n and 'id' in cn.n and isbool(self.P, cn.n):
            e = cn.n['init']
            while e.get('k') == 'cast': e = e['e']
            if cell(e) == self.key:
                d = dict(q[1]); d[cn.n['id']] = q[0]
                return (q[0], tuple(sorted(d.items())))
        return None

    def on_exit(self, ts, fid, q, ret, ctx): return (q[0], ())


class ErrSpec(G.FlowSpec):
    """Adds the parser's error flag to the consumption state."""
    def __init__(self, P, S):
        super().__init__(P, S)
        self.eset = set(); self.eclr = set(); self.eget = set(); self.entered = {}
        q = None
        for i, f in P.fn.items():
            if f.get('cls') != 'Parser' or tail(f['name']) != 'hasError' or not f.get('body'): continue
            self.eget.add(i)
            for n in walk_fn(f):
                if n.get('k') == 'return' and 'e' in n and cell(n['e']): q = cell(n['e'])
        self.cell = q
        for i, f in P.fn.items():
            if not f.get('body'): continue
            for n in walk_fn(f):
                if n.get('k') == 'asg' and q and cell(n['a']) == q:
                    v = konst(n['b'])
                    if v is None: continue
                    one = len(f['body'].get('s', ())) <= 4 and not any(x.get('k') in ('if', 'while', 'for', 'return') for x in walk(f['body']))
                    if one: (self.eset if v else self.eclr).add(i)
        self.eclr -= {i for i in self.eclr if P.fn[i].get('ctor') or tail(P.fn[i]['name']) == 'Parser'}
        self.direct = {}
        for i, f in P.fn.items():
            if f.get('body') and i not in self.eset | self.eclr:
                for n in walk_fn(f):
                    if n.get('k') == 'asg' and q and cell(n['a']) == q and konst(n['b']) is not None: self.direct[id(n)] = int(bool(konst(n['b'])))
        self.reach = set(S.users)
        rev = {}
        for i in P.fn:
            for j in P.callees(i): rev.setdefault(j, set()).add(i)
        todo = list(self.eset | self.eclr)
        while todo:
            x = todo.pop()
            for y in rev.get(x, ()):
                if y not in self.reach and y not in S.prim: self.reach.add(y); todo.append(y)

    def interesting(self, f): return f in self.S.prim or f in self.eset or f in self.eclr or f in self.eget

    def on_call(self, ts, t, n, q, argv, ctx):
        self.entered.setdefault((ctx.fid, id(n)), set()).add(q[3])
        if t in self.eset: return [((q[0], q[1], q[2], 1), None)]
        if t in self.eclr: return [((q[0], q[1], q[2], 0), None)]
        if t in self.eget: return [(q, q[3])]
        if t in self.S.prim: return super().on_call(ts, t, n, q, argv, ctx)
        if t not in self.reach: return None
        return [((q2[0], q2[1], q[2], q2[3]), r) for q2, r in ts.summary(t, (q[0], q[1], (), q[3]), tuple(sorted(argv.items())), ctx.stack)]

    def on_node(self, ts, cn, q, ctx):
        if cn.kind == 'asg' and id(cn.n) in self.direct: return (q[0], q[1], q[2], self.direct[id(cn.n)])
        return super().on_node(ts, cn, q, ctx)

    def on_exit(self, ts, fid, q, ret, ctx): return (q[0], q[1], (), q[3])


class ErrFlow(G.Flow):
    def __init__(self, P, E, S):
        self.S = S; self.fid = None; self.outer = set(); self.refine = False
        spec = ErrSpec(P, S); spec.ts = self
        Typestate.__init__(self, P, spec, E)
        self.memc = self.mem_const

    def mem_const(self, q, e):
        if e.get('k') == 'mem' and self.spec.cell and e.get('q') == self.spec.cell and q is not None: return q[3]
        return super().mem_const(q, e)

    def full(self, f, q):
        for _ in range(20):
            self.changed = False; self.done = set()
            r = self.summary(f, q, (), ())
            if not self.changed: break
        return r


    def again(self, fid, L):
        """The states in which a loop comes back to its head, started at the head with nothing taken."""
        P = self.P; g = cfg(P, fid); tr = self.tracked(fid)
        out = set()
        for _ in range(20):
            self.changed = False; self.done = set()
            q0 = ('live', False, (), 0)
            facts = {(L.head.id, q0): {}}
            work = [(L.head, q0)]
            while work:
                node, q = work.pop()
                env = facts[(node.id, q)]
                for q2, env2, _ in self._transfer(fid, node, q, env, tr, ((fid,),), set()):
                    self.curq = q2
                    for y, lab in node.succ:
                        if y.id not in L.nodes: continue
                        e3 = env2
                        if lab and lab[0] in ('T', 'F') and lab[1].get('k') != 'rangefor':
                            e3 = self.assume(lab[1], lab[0] == 'T', env2, tr)
                            if e3 is None: continue
                        if y.id == L.head.id: out.add(q2); continue
                        e3 = {k: v for k, v in e3.items() if k in tr or k[0] in ('c', 'm')}
                        if node.kind in ('br', 'asg', 'var', 'ret', 'sw'): e3 = {k: v for k, v in e3.items() if k[0] != 'c'}
                        key = (y.id, q2); old = facts.get(key)
                        if old is None: facts[key] = e3; work.append((y, q2))
                        else:
                            new = {k: v for k, v in old.items() if k in e3 and e3[k] == v}
                            if len(new) != len(old): facts[key] = new; work.append((y, q2))
            if not self.changed: break
        return out


def split(outs):
    """True if the level at the exit is not determined by the returned constant."""
    by = {}
    for q, r in outs: by.setdefault(r, set()).add(q)
    if any(len(v) > 1 for v in by.values()): return True
    if None in by and len(by) > 1: return len(set().union(*by.values())) > 1
    return False


class Check:
    def __init__(self, P, E, res):
        self.P = P; self.E = E; self.res = res
        self.callers = {}
        for i in P.fn:
            for j in P.callees(i): self.callers.setdefault(j, set()).add(i)

    def nm(self, f): return '%s (%s)' % (self.P.fn[f]['name'], self.P.fn[f]['file'])

    def ctordtor(self, f):
        x = self.P.fn[f]; t = tail(x['name']); c = tail(x.get('cls') or '')
        return bool(x.get('ctor') or x.get('dtor') or t == c or t.startswith('~'))

    # ------------------------------------------------------------------ 1
    def levels(self):
        P = self.P; res = self.res
        st, fl = events(P)
        keys = []
        for k, ev in sorted(st.items()):
            d = {x for l in ev.values() for n, x in l}
            if d != {1, -1}: continue
            keys.append(k)
        n = 0
        for k in keys:
            ev = st[k]
            name = k[1]
            ts = Typestate(P, Level(P, k, ev), self.E)
            fns = [f for f in ts.relevant if P.fn[f].get('body')]
            outs = {}
            for f in sorted(fns): outs[f] = ts.run(f, 0)
            # a data structure that grows and shrinks on its own is no nesting level
            par = k[0] == 'count' or self.nests(k, ev)
            if not par: res.stats.setdefault('not nesting', []).append(name); continue
            bad = [f for f in fns if split(outs[f]) and not (ts.spec.owner and ts.spec.own(f))]
            n += 1
            ends = [f for f in fns if not self.ctordtor(f) and not (self.callers.get(f, set()) - {f}) and {q for q, r in outs[f]} - {0}]
            # name the functions that open or close it themselves and don't come out even
            thin = {f for f in ev if len(ev[f]) == 1 and f not in bad}
            inner = set()
            if bad or ends:
                inner = {f for f in fns if not self.ctordtor(f) and f not in thin and (f in ev or any(g in thin for g in P.callees(f))) and {q for q, r in outs[f]} - {0}}
                if not inner: inner = {f for f in bad if not any(g in bad and g != f for g in P.callees(f))} or set(bad[:1]) or set(ends[:1])
            for f in sorted(fns):
                if f in bad and f not in inner: continue
                lv = sorted({q for q, r in outs[f]})
                res.ob('%s: the level of %s is the same at every exit' % (self.nm(f), name), f not in inner, 'level.%s.%s' % (name, P.fn[f]['name']),
                       'level of %s at the exits of %s, relative to its start: %s: what was opened is not closed on every path' % (name, line(P, f, P.fn[f]['line']), ', '.join('%+d' % x if x else '0' for x in lv)))
            for f in sorted(fns):
                if f in bad or self.ctordtor(f) or self.callers.get(f, set()) - {f}: continue
                res.ob('%s: %s is as before at the end' % (self.nm(f), name), f not in ends or bool(inner), 'end.%s.%s' % (name, P.fn[f]['name']),
                       '%s leaves %s at another level' % (line(P, f, P.fn[f]['line']), name))
            # whoever closes a level must be in a level: never below the start except in a closing routine
            res.stats.setdefault('levels', []).append(name)
        res.need(n, 2, 'nesting levels')

    def nests(self, k, ev):
        """The stack is opened and closed around other work: some function opens it and it is closed later in the same function, directly or through a helper."""
        P = self.P
        op = {f for f, l in ev.items() if any(d > 0 for n, d in l)}
        cl = {f for f, l in ev.items() if any(d < 0 for n, d in l)}
        for f in P.fn:
            if not P.fn[f].get('body'): continue
            c = P.callees(f)
            if (f in op or any(x in op and len(ev[x]) == 1 for x in c)) and (f in cl or any(x in cl and len(ev[x]) == 1 for x in c)): return True
        return False

    # ------------------------------------------------------------------ 2
    def flags(self):
        P = self.P; res = self.res
        st, fl = events(P)
        n = 0
        for key, ev in sorted(fl.items()):
            if tail(key) in NOTNEST or not self.scoped(key, ev): continue
            n += 1
            ts = Typestate(P, Flag(P, key, ev), self.E)
            res.stats.setdefault('settings', []).append(key)
            fns = [f for f in sorted(ts.relevant) if P.fn[f].get('body') and not self.ctordtor(f)]
            roots = [f for f in fns if not self.callers.get(f, set()) - {f}]
            for f in roots: ts.run(f, (0, ()))
            on = {k[0] for k in ts.memo if k[1][0] == 1}
            for v in (0, 1):
                if v and tail(key) in IDEMPOTENT: continue
                use = [f for f in fns if not v or f in on]
                outs = {f: {(q[0], r) for q, r in ts.run(f, (v, ()))} for f in use}
                worse = {f for f in use if {q for q, r in outs[f]} - {v, '?'} and not self.setter(f, ev)}
                inner = [f for f in sorted(worse) if not any(g in worse and g != f for g in P.callees(f))]
                if worse and not inner: inner = sorted(f for f in worse if f in ev) or sorted(worse)[:1]
                for f in use:
                    if f in worse and f not in inner: continue
                    res.ob('%s: %s is %s after it if it was before' % (self.nm(f), key, 'on' if v else 'off'), f not in inner, 'flag.%s.%d.%s' % (key, v, P.fn[f]['name']),
                           '%s leaves %s %s although it was %s' % (line(P, f, P.fn[f]['line']), key, 'off' if v else 'on', 'on' if v else 'off'))
        res.need(n, 1, 'settings kept for the time of a nested parse')

    def setter(self, f, ev):
        """A routine that does nothing but set the flag."""
        b = self.P.fn[f].get('body') or {}
        return f in ev and len(b.get('s', ())) == 1

    def scoped(self, key, ev):
        """Some function switches the setting on and later off or back again, with calls in between."""
        P = self.P
        small = {g: l[0][1] for g, l in ev.items() if len(l) == 1 and len((P.fn[g].get('body') or {}).get('s', ())) == 1}
        for f in P.fn:
            if not P.fn[f].get('body') or self.ctordtor(f): continue
            if f not in ev and not any(g in small for g in P.callees(f)): continue
            g = cfg(P, f)
            on = []; off = set()
            for c in g.nodes:
                v = 'no'
                if c.kind == 'asg' and cell(c.n['a']) == key and c.n['op'] == '=': v = konst(c.n['b'])
                elif c.kind == 'call':
                    ts = [t for t in P.targets(c.n) if t in small]
                    if ts: v = small[ts[0]]
                if v == 'no': continue
                if v: on.append(c)
                else: off.add(c.id)
            for c in on:
                seen = set(); todo = [(y, False) for y, _ in c.succ]
                while todo:
                    x, call = todo.pop()
                    if (x.id, call) in seen: continue
                    seen.add((x.id, call))
                    if x.id in off and call: return True
                    if x.kind == 'call' and x.id not in off: call = True
                    todo += [(y, call) for y, _ in x.succ]
        return False

    # ------------------------------------------------------------------ 3, 4
    def attempts(self):
        P = self.P; res = self.res
        S = G.Streams(P); fl = ErrFlow(P, self.E, S)
        if not fl.spec.eset or not fl.spec.eget or not fl.spec.cell: raise Broken('the error flag of the parser is not found')
        self.S = S
        cmds = [f for f in P.fn if f in S.users and P.fn[f].get('body') and self.retcmd(f)]
        alts = {}
        for f in sorted(P.fn):
            if f not in S.users or not P.fn[f].get('body'): continue
            for c, t in self.tried(f): alts.setdefault(t, set()).add((f, c.n.get('l')))
        # attempts that rewind in a loop over what could be meant
        for f in sorted(P.fn):
            if f in alts or f not in S.users or not P.fn[f].get('body') or not (self.retbool(f) or self.retcmd(f)): continue
            for L in G.loops(P, f):
                if any(x.kind == 'call' and x.id in L.nodes and any(S.prim.get(t) == 'setpos' for t in P.targets(x.n)) for x in cfg(P, f).nodes): alts.setdefault(f, set()).add((f, L.line))
        res.need(len(alts), 6, 'attempts to parse something')
        for f in sorted(alts, key=lambda x: (P.fn[x]['name'], x)):
            o = fl.full(f, ('live', False, (), 0))
            bad = [x for x in o if x[0][1] and not x[0][3] and x[1] == 0]
            res.ob('%s: gives back its tokens or reports an error when it fails' % self.nm(f), not bad, 'attempt.%s' % P.fn[f]['name'],
                   '%s can fail without an error after it took tokens, and something else is then tried in the middle of the statement (%s)' % (line(P, f, P.fn[f]['line']), ', '.join('tried in %s:%s' % (P.fn[a]['name'], b) for a, b in sorted(alts[f], key=str)[:3])))
        # 3b: a list of things it could be: each is tried at the same place
        n = 0
        for f in sorted(P.fn):
            if f not in S.users or not P.fn[f].get('body'): continue
            for i, L in enumerate(G.loops(P, f)):
                if not self.listloop(f, L): continue
                n += 1
                bad = [q for q in fl.again(f, L) if q[1] and not q[3]]
                res.ob('%s: everything it could be is tried at the same place (loop at line %s)' % (self.nm(f), L.line), not bad, 'round.%s.%d' % (P.fn[f]['name'], i),
                       '%s: after a failed attempt the next one is tried with tokens missing' % line(P, f, L.line))
        res.need(n, 3, 'loops over alternatives')
        # 4
        n = 0
        for f in sorted(P.fn):
            if not P.fn[f].get('body') or f not in S.users: continue
            first = self.first(f)
            if not first: continue
            for e in (0, 1):
                fl.memo = {}; fl.spec.entered = {}
                fl.full(f, ('live', False, (), e))
                for c in first[:1]:
                    n += 1
                    got = fl.spec.entered.get((f, id(c.n)), set())
                    res.ob('%s: every statement is tried without an error of an earlier one (line %s)' % (self.nm(f), c.n.get('l')), 1 not in got, 'leak.%s' % P.fn[f]['name'],
                           '%s: the next statement can be tried while the error of an earlier one is still set, which drops it' % line(P, f, c.n.get('l')))
        res.need(n, 1, 'statement loops')

    def retcmd(self, f):
        return 'unique_ptr' in str(self.P.ty(self.P.fn[f]['rt'])) or self.P.rec_of(self.P.fn[f]['rt']) == 'std::unique_ptr'

    def retbool(self, f): return bool(self.P.ty(self.P.fn[f]['rt']).get('bool'))

    def tried(self, f):
        """Calls whose failure makes the function try another routine in the same round."""
        P = self.P; S = self.S
        g = cfg(P, f); dom = dominators(g)
        calls = {}
        for c in g.nodes:
            if c.kind != 'call': continue
            for t in P.targets(c.n):
                if t in S.users and t not in S.prim and P.fn[t].get('body') and self.retcmd(t): calls.setdefault(c.id, []).append(t)
        out = []
        for c in g.nodes:
            if c.kind != 'call': continue
            for t in P.targets(c.n):
                if t not in S.users or t in S.prim or not P.fn[t].get('body') or t == f: continue
                if not (self.retcmd(t) or self.retbool(t)): continue
                seen = set(); todo = [(c, False)]; hit = False
                while todo and not hit:
                    x, br = todo.pop()
                    if (x.id, br) in seen: continue
                    seen.add((x.id, br))
                    if br and x.id in calls and x.id != c.id and not (set(calls[x.id]) == {t}): hit = True; break
                    for y, lab in x.succ:
                        if y.id in dom.get(x.id, ()): continue          # next round
                        b2 = br
                        if lab and lab[0] in ('T', 'F') and isinstance(lab[1], dict) and lab[1].get('k') != 'rangefor':
                            s = self.sense(lab[1], c.n, x)
                            if s is not None:
                                if (lab[0] == 'T') == s: continue       # succeeded
                                b2 = True
                        todo.append((y, b2))
                if hit: out.append((c, t))
        return out

    def listloop(self, f, L):
        """A loop over alternatives: success leaves it, failure goes on to the next."""
        P = self.P; S = self.S; g = cfg(P, f)
        nodes = {x.id: x for x in g.nodes if x.id in L.nodes}
        for x in nodes.values():
            if x.kind == 'call' and any(S.prim.get(t) in ('getpos', 'setpos') for t in P.targets(x.n)): return True
        for x in nodes.values():
            if x.kind != 'call' or not any(t in S.users and t not in S.prim and (self.retbool(t) or self.retcmd(t)) for t in P.targets(x.n)): continue
            if not any(self.consumes(t) for t in P.targets(x.n)): continue
            for b in nodes.values():
                if b.kind != 'br': continue
                s = self.sense(b.n, x.n, b)
                if s is None: continue
                ok = [y for y, lab in b.succ if lab and (lab[0] == 'T') == s]
                no = [y for y, lab in b.succ if lab and (lab[0] == 'T') != s]
                if any(self.back(y, L, nodes) for y in no) and not any(self.back(y, L, nodes) for y in ok): return True
        return False

    def back(self, y, L, nodes):
        seen = set(); todo = [y]
        while todo:
            x = todo.pop()
            if x.id == L.head.id: return True
            if x.id in seen or x.id not in nodes: continue
            seen.add(x.id)
            todo += [z for z, _ in x.succ]
        return False

    def consumes(self, t):
        if not hasattr(self, '_cons'):
            self._cons = set(i for i, k in self.S.prim.items() if k == 'consume'); todo = list(self._cons)
            while todo:
                x = todo.pop()
                for y in self.callers.get(x, ()):
                    if y not in self._cons: self._cons.add(y); todo.append(y)
        return t in self._cons

    def sense(self, e, call, x):
        """True if e is true when the call succeeded, False if e is true when it failed, None if e is about something else."""
        while e.get('k') == 'cast': e = e['e']
        if e is call: return True
        if e.get('k') == 'un' and e['op'] == '!':
            s = self.sense(e['e'], call, x)
            return None if s is None else not s
        if e.get('k') == 'asg': return self.sense(e['b'], call, x)
        if e.get('k') == 'call':
            a = list(e.get('args', ()))
            if 'obj' in e: a = [e['obj']] + a
            if e.get('op') in ('==', '!=') and len(a) == 2:
                for p, q in ((a[0], a[1]), (a[1], a[0])):
                    if self.S.peel(q).get('k') == 'nullptr':
                        s = self.inner(p, call)
                        if s: return e['op'] == '!='
            if tail(e.get('name', '')) in ('operator bool', 'operator conversion') and 'obj' in e and self.inner(e['obj'], call): return True
        return None

    def inner(self, e, call):
        e = self.S.peel(e)
        if e is call: return True
        if e.get('k') == 'call' and e.get('op') == '=' :
            a = list(e.get('args', ()))
            return any(self.inner(y, call) for y in a[-1:])
        if e.get('k') == 'asg': return self.inner(e['b'], call)
        if e.get('k') == 'ref' and 'id' in e:
            return self.lastdef(e['id'], call)
        if e.get('k') in ('ctor', 'temp') and len(e.get('args', ())) == 1: return self.inner(e['args'][0], call)
        return False

    def lastdef(self, vid, call):
        """The local variable is given the result of the call."""
        return call.get('_def', {}).get(vid, False)

    def first(self, f):
        """In the loop over statements: the call that everything else in a round comes after."""
        P = self.P; S = self.S
        if tail(P.fn[f]['name']) != 'parseCommandSequence': return []
        g = cfg(P, f); dom = dominators(g)
        best = []
        for L in G.loops(P, f):
            ids = set(L.nodes)
            cs = [x for x in g.nodes if x.id in ids and x.kind == 'call' and any(t in S.users and t not in S.prim and P.fn[t].get('body') and (self.retcmd(t) or self.retbool(t)) and not P.fn[t]['name'].endswith('::atEnd') and not self.handler(t) for t in P.targets(x.n))]
            if len(cs) >= 2 or (cs and len(L.nodes) > 8):
                d = [x for x in cs if all(x.id in dom.get(y.id, ()) for y in cs)]
                if d: best.append((len(ids), d[0]))
        best.sort(key=lambda x: -x[0])
        return [b for _, b in best]

    def handler(self, t):
        """Deals with an error: clears the flag itself."""
        fl = self.flowspec if hasattr(self, 'flowspec') else None
        return any(tail(self.P.fn[x]['name']) == 'clearError' for x in self.P.callees(t)) and tail(self.P.fn[t]['name']) == 'handleError'

    def marks(self):
        """Local variables given the result of a call."""
        P = self.P
        for f in P.fn.values():
            if not f.get('body'): continue
            for n in walk_fn(f):
                if n.get('k') == 'var' and 'init' in n and 'id' in n:
                    e = n['init']
                    while e.get('k') in ('cast', 'ctor'):
                        if e['k'] == 'cast': e = e['e']
                        elif len(e.get('args', ())) == 1: e = e['args'][0]
                        else: break
                    if e.get('k') == 'call': e.setdefault('_def', {})[n['id']] = True
                if n.get('k') == 'call' and n.get('op') == '=' and len(n.get('args', ())) + ('obj' in n) == 2:
                    a = ([n['obj']] if 'obj' in n else []) + list(n['args'])
                    if a[0].get('k') == 'ref' and 'id' in a[0]:
                        e = a[1]
                        while e.get('k') in ('cast', 'ctor'):
                            if e['k'] == 'cast': e = e['e']
                            elif len(e.get('args', ())) == 1: e = e['args'][0]
                            else: break
                        if e.get('k') == 'call': e.setdefault('_def', {})[a[0]['id']] = True


def check(P, res, tier):
    E = CK.effects()
    c = Check(P, E, res)
    c.marks()
    c.levels()
    c.flags()
    c.attempts()
    res.stats['functions'] = len([f for f in P.fn if P.fn[f].get('body')])
