"""The merged program: lookup helpers, class hierarchy, call graph."""
from collections import defaultdict, deque
from front import Broken

SKIP_KEYS = ('ty', 'oty', 'k', 'l', 'n', 'fn', 'name', 'rt', 'q', 'op', 'cls', 'dk', 'pm', 'ck', 'aty', 'cty')


def kids(n):
    """Direct sub-nodes of a node in (approximate) evaluation order."""
    if isinstance(n, list):
        for x in n:
            if x is not None:
                yield x
        return
    k = n.get('k')
    if k in ('block', 'other'):
        yield from (x for x in n['s'] if x is not None)
    elif k == 'decl':
        yield from n['v']
    elif k == 'var':
        if 'init' in n: yield n['init']
    elif k == 'if':
        for f in ('init', 'var', 'c', 't', 'e'):
            if n.get(f) is not None: yield n[f]
    elif k in ('while', 'for'):
        for f in ('init', 'var', 'c', 'b', 'inc'):
            if n.get(f) is not None: yield n[f]
    elif k == 'do':
        yield n['b']; yield n['c']
    elif k == 'rangefor':
        for f in ('init', 'range', 'var', 'b'):
            if n.get(f) is not None: yield n[f]
    elif k == 'switch':
        for f in ('init', 'var', 'c', 'b'):
            if n.get(f) is not None: yield n[f]
    elif k in ('case', 'default', 'label'):
        yield n['s']
    elif k == 'return':
        if 'e' in n: yield n['e']
    elif k == 'try':
        yield n['b']
        yield from n['h']
    elif k == 'call':
        if 'fx' in n: yield n['fx']
        if n.get('op') in ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>=') and 'obj' in n:
            yield from n['args']
            yield n['obj']
        else:
            if 'obj' in n: yield n['obj']
            yield from n['args']
    elif k == 'ctor':
        yield from n['args']
    elif k == 'new':
        if 'n' in n and isinstance(n['n'], dict): yield n['n']
        if 'init' in n: yield n['init']
    elif k in ('delete', 'un', 'cast'):
        yield n['e']
    elif k == 'throw':
        if 'e' in n: yield n['e']
    elif k == 'bin':
        yield n['a']; yield n['b']
    elif k == 'asg':
        yield n['b']; yield n['a']
    elif k == 'idx':
        yield n['b']; yield n['i']
    elif k == 'cond':
        yield n['c']; yield n['t']; yield n['e']
    elif k in ('mem', 'memfn'):
        yield n['b']
    elif k == 'init':
        yield from n['a']


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
        st.extend(reversed(list(kids(x))))


def strip(n):
    """Look through casts, copies and smart-pointer plumbing that denote the same object/value."""
    while True:
        k = n.get('k')
        if k == 'cast':
            n = n['e']
        elif k == 'ctor' and n.get('cp') in ('copy', 'move') and len(n['args']) >= 1:
            n = n['args'][0]
        elif k == 'ctor' and n.get('elide') and len(n['args']) == 1:
            n = n['args'][0]
        elif k == 'call' and n.get('name') in ('std::move', 'std::forward') and n['args']:
            n = n['args'][0]
        else:
            return n


MAKE = ('std::make_unique', 'std::make_shared')


class Program:
    def __init__(self, raw):
        self.raw = raw
        self.fn = raw['functions']
        self.insts = raw['insts']     # further instantiations of function templates over arithmetic types
        self.rec = raw['records']
        self.vars = raw['vars']
        self.enums = raw['enums']
        self.types = raw['types']
        self.units = raw['units']
        self._prep()

    # ---- types
    def ty(self, s):
        return self.types.get(s, {})

    def rec_of(self, tystr):
        """Record name behind a type, looking through pointers, references and smart pointers."""
        seen = 0
        while seen < 6:
            t = self.types.get(tystr, {})
            if 'ptr' in t:
                tystr = t['ptr']
                if tystr.startswith('const '): tystr = tystr[6:]
            elif t.get('rec') in ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr', 'std::optional', 'std::reference_wrapper') and t.get('targs'):
                tystr = t['targs'][0]
            else:
                return t.get('rec')
            seen += 1
        return None

    # ---- hierarchy
    def _prep(self):
        self.subs = defaultdict(set)   # class -> transitive subclasses (incl. itself)
        for r, o in self.rec.items():
            self.subs[r].add(r)
            todo = list(o['bases']); seen = set()
            while todo:
                b = todo.pop()
                if b in seen: continue
                seen.add(b)
                self.subs[b].add(r)
                todo += self.rec.get(b, {}).get('bases', [])
        # overriders: method id -> set of method ids transitively overriding it (incl. itself)
        self.over = defaultdict(set)
        direct = defaultdict(set)
        self.method_cls = {}
        self.pure = set()
        for r, o in self.rec.items():
            for m in o['methods']:
                self.method_cls[m['id']] = r
                if m.get('pure'): self.pure.add(m['id'])
                for b in m.get('ov', []):
                    direct[b].add(m['id'])
        for m in list(direct) + list(self.method_cls):
            todo = [m]
            while todo:
                x = todo.pop()
                if x in self.over[m]: continue
                self.over[m].add(x)
                todo += direct.get(x, ())
        # simple-name index
        self.by_name = defaultdict(list)
        for i, f in self.fn.items():
            self.by_name[f['name']].append(i)
        # address-taken functions and lambdas
        self.addr_taken = set()
        self.lambdas = set()
        for i, f in self.fn.items():
            f['_calls'] = None
        for i, f in self.fn.items():
            for n in walk_fn(f):
                if n.get('k') == 'ref' and n.get('dk') == 'func': self.addr_taken.add(n['fn'])
                if n.get('k') == 'un' and n.get('op') == '&' and n['e'].get('k') == 'ref' and n['e'].get('dk') == 'func': self.addr_taken.add(n['e']['fn'])
                if n.get('k') == 'lambda': self.lambdas.add(n['fn'])
        for v in self.vars.values():
            if 'init' in v:
                for n in walk(v['init']):
                    if n.get('k') == 'ref' and n.get('dk') == 'func': self.addr_taken.add(n['fn'])
                    if n.get('k') == 'lambda': self.lambdas.add(n['fn'])

    def is_a(self, cls, base):
        return cls in self.subs.get(base, ())

    def find(self, name, required=True):
        """All function ids with the given qualified name (any signature)."""
        r = [i for i in self.by_name.get(name, ())]
        if not r and required:
            raise Broken('anchor function %s not found' % name)
        return r

    def one(self, name):
        r = self.find(name)
        if len(r) != 1:
            raise Broken('anchor function %s is ambiguous: %s' % (name, r))
        return r[0]

    # ---- calls
    def sig_compatible(self, fid, nargs):
        f = self.fn.get(fid)
        return f is not None and len(f['params']) == nargs

    def targets(self, c):
        """Possible repo callees (ids with bodies) of a call / ctor node."""
        k = c.get('k')
        if k == 'ctor':
            return [c['fn']] if c['fn'] in self.fn else []
        if k != 'call': return []
        if 'fx' in c:
            return self.fp_targets(c, len(c['args']))
        name = c.get('name', '')
        if name == 'std::function::operator()':
            return self.fp_targets(c, len(c['args']))
        if name in MAKE: return self.made(c)
        fid = c['fn']
        if c.get('virt'):
            cls = self.rec_of(c.get('oty', '')) or c.get('cls')
            res = []
            cands = self.over.get(fid, {fid})
            subs = self.subs.get(cls) or {cls}
            for m in cands:
                mc = self.method_cls.get(m)
                if m in self.fn and (mc in subs or self._inherits(subs, mc)):
                    res.append(m)
            return sorted(res)
        return [fid] if fid in self.fn else []

    def made(self, c):
        """Constructors a make_unique / make_shared call may select."""
        t = self.ty(c.get('rt', '') or c.get('ty', ''))
        rec = self.ty((t.get('targs') or [''])[0]).get('rec')
        out = []
        for m in self.rec.get(rec, {}).get('methods', ()):
            f = self.fn.get(m['id'])
            if f is None or not f.get('ctor') or len(f['params']) < len(c['args']): continue
            if len(f['params']) == 1 and self.ty(f['params'][0]['ty']).get('rec') == rec: continue
            if len(f['params']) > len(c['args']) and not all(p.get('def') for p in f['params'][len(c['args']):]): continue
            out.append(m['id'])
        if len(out) > 1:
            def score(fid):
                s = 0
                for p, a in zip(self.fn[fid]['params'], c['args']):
                    pt = self.ty(p['ty']); at = self.ty(strip(a).get('ty', ''))
                    if (pt.get('rec') or pt.get('enum')) == (at.get('rec') or at.get('enum')): s += 1
                return s
            best = max(map(score, out))
            out = [o for o in out if score(o) == best]
        return sorted(out)

    def _inherits(self, subs, base):
        # some class in subs inherits the implementation from base
        return any(s in self.subs.get(base, ()) for s in subs)

    def fp_targets(self, c, nargs):
        # function pointers and std::function: every address-taken function / lambda with the same arity
        fx = c.get('fx')
        if fx is not None:
            x = strip(fx)
            if x.get('k') == 'ref' and x.get('dk') == 'func':
                return [x['fn']] if x['fn'] in self.fn else []
            if x.get('k') == 'lambda':
                return [x['fn']]
        res = [i for i in (self.addr_taken | self.lambdas) if self.sig_compatible(i, nargs)]
        want = None
        if fx is not None:
            t = fx.get('ty', '')
            res2 = []
            for i in res:
                f = self.fn[i]
                if self._fsig_match(t, f): res2.append(i)
            res = res2
        else:
            t = c.get('oty') or (c['obj'].get('ty') if 'obj' in c else '')
            res2 = [i for i in res if self._fsig_match(t, self.fn[i])]
            res = res2
        return sorted(res)

    def _fsig_match(self, t, f):
        ps = ','.join(p['ty'] for p in f['params']).replace(' ', '')
        tt = t.replace(' ', '')
        return '(' + ps + ')' in tt

    def calls(self, fid):
        """[(node, [targets])] of a function, not descending into lambdas (lambdas count where created)."""
        f = self.fn[fid]
        if f.get('_calls') is None:
            r = []
            for n in walk_fn(f):
                if n.get('k') in ('call', 'ctor'):
                    r.append((n, self.targets(n)))
                elif n.get('k') == 'lambda':
                    r.append((n, [n['fn']]))
                elif n.get('k') == 'new' and 'init' in n:
                    pass
            f['_calls'] = r
        return f['_calls']

    def callees(self, fid):
        s = set()
        for n, t in self.calls(fid):
            s.update(t)
        # destructors of local objects with repo types are included
        for d in self.local_dtors(fid):
            s.add(d)
        return s

    def dtor_of(self, rec):
        for m in self.rec.get(rec, {}).get('methods', ()):
            if m['n'].startswith('~') and m['id'] in self.fn and not m.get('implicit'):
                return m['id']
        return None

    def local_dtors(self, fid):
        r = set()
        for n in walk_fn(self.fn[fid]):
            if n.get('k') == 'var' and 'ty' in n:
                t = self.types.get(n['ty'], {})
                if t.get('rec') and not t.get('ref') and 'ptr' not in t:
                    d = self.dtor_of(t['rec'])
                    if d: r.add(d)
        return r

    def reach(self, roots, stop=()):
        seen = set(); todo = [r for r in roots if r in self.fn]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for y in self.callees(x):
                if y not in seen and y in self.fn and y not in stop:
                    todo.append(y)
        return seen

    def path_to(self, roots, pred, stop=()):
        """Shortest call path from a root to a function satisfying pred."""
        par = {r: None for r in roots if r in self.fn}
        dq = deque(par)
        while dq:
            x = dq.popleft()
            if pred(x):
                p = []
                while x is not None:
                    p.append(x); x = par[x]
                return p[::-1]
            for y in sorted(self.callees(x)):
                if y in self.fn and y not in par and y not in stop:
                    par[y] = x; dq.append(y)
        return None

    def where(self, fid, node=None):
        f = self.fn[fid]
        return '%s:%s (%s)' % (f['file'], (node or {}).get('l', f['line']), f['name'])


def walk_fn(f):
    for i in f.get('inits', ()):
        if 'e' in i:
            yield from walk(i['e'])
    if f.get('body'):
        yield from walk(f['body'])


def tail(name):
    return name.rsplit('::', 1)[-1]
