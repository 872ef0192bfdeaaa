"""Interprocedural mod/ref analysis: which memory a function may read or write.

A location is (root, path): roots are globals, this, the pointee of parameter i, variables captured
by a lambda, heap objects of a class (anything reached through a pointer kept in memory), or
function-local storage (dropped in summaries).  path is a tuple of field names (at most 3)."""
from collections import defaultdict, deque
from prog import walk_fn, kids, tail, MAKE

SMART = ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr', 'std::reference_wrapper')
ACCESS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'front', 'back', 'at', 'operator[]', 'data', 'get', 'operator*',
          'operator->', 'find', 'lower_bound', 'upper_bound', 'c_str', 'str', 'value', 'top', 'equal_range', 'native', 'rdbuf', 'lock', 'is_open', 'operator bool', 'operator conversion'}
MAPS = ('std::map', 'std::unordered_map')
X = (('X',), ())
MAXP = 3
LOCKS = ('std::lock_guard', 'std::scoped_lock', 'std::unique_lock', 'std::shared_lock')
# library calls with hidden shared state
HIDDEN = {'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'rand', 'srand', 'setlocale', 'strerror', 'tmpnam', 'getenv'}


def ext(loc, f):
    r, p = loc
    if len(p) >= MAXP: return loc
    return (r, p + (f,))


class Effects:
    def __init__(self, P):
        self.P = P
        self.R = {i: {} for i in P.fn}
        self.W = {i: {} for i in P.fn}
        self.ret = {i: set() for i in P.fn}
        self.env = {}
        self.LR = {i: {} for i in P.fn}      # locks held at every read / write of a location
        self.LW = {i: {} for i in P.fn}
        self.DR = {i: {} for i in P.fn}      # accesses made by the function itself: location -> (line, locks)
        self.DW = {i: {} for i in P.fn}
        self._run()

    # ------------------------------------------------------------------
    def _run(self):
        P = self.P
        callers = defaultdict(set)
        for i in P.fn:
            for j in P.callees(i): callers[j].add(i)
        # bottom-up initial order
        order = []; seen = set()
        for r in P.fn:
            st = [(r, iter(sorted(P.callees(r))))] if r not in seen else []
            seen.add(r)
            while st:
                x, it = st[-1]
                for y in it:
                    if y in P.fn and y not in seen:
                        seen.add(y); st.append((y, iter(sorted(P.callees(y))))); break
                else:
                    order.append(x); st.pop()
        dq = deque(order); inq = set(order)
        n = 0
        while dq:
            i = dq.popleft(); inq.discard(i)
            n += 1
            if self._analyse(i):
                for c in callers[i]:
                    if c not in inq: inq.add(c); dq.append(c)
        self.iterations = n

    def _analyse(self, fid):
        P = self.P; f = P.fn[fid]
        self.f = f; self.fid = fid
        self.params = {p['id']: (i, p) for i, p in enumerate(f['params'])}
        self.own = set(self.params)
        for n in walk_fn(f):
            if n.get('k') == 'var' and 'id' in n:
                self.own.add(n['id'])
                for b in n.get('bind', ()): self.own.add(b['id'])
        self.loc_ty = {p['id']: p['ty'] for p in f['params']}
        env = self.env.setdefault(fid, defaultdict(set))
        self.cenv = env
        self.locks = self._locks(f)
        self.base = set()
        for n in walk_fn(f):
            b = None
            if n.get('k') == 'mem' and not n.get('arrow'): b = n['b']
            elif n.get('k') == 'call' and n.get('obj') is not None and P.targets(n) and 'ptr' not in P.ty(n['obj'].get('ty', '')): b = n['obj']
            elif n.get('k') == 'asg' and n['op'] == '=': b = n['a']
            while b is not None and b.get('k') == 'cast': b = b['e']
            if b is not None and b.get('k') in ('ref', 'mem', 'idx'): self.base.add(id(b))
        before = (len(self.R[fid]), len(self.W[fid]), len(self.ret[fid]), self._lk(fid))
        # local alias environment to a fixpoint
        for _ in range(4):
            sz = sum(len(v) for v in env.values())
            for n in walk_fn(f):
                k = n.get('k')
                if k == 'var' and 'id' in n:
                    self.loc_ty[n['id']] = n['ty']
                    if 'init' in n and self.aliasing(n['ty']):
                        env[n['id']] |= self.pts_or_lv(n['init'], n['ty'])
                    for b in n.get('bind', ()):
                        if 'init' in n: env[b['id']] |= self.lv(n['init'])
                elif k == 'rangefor':
                    v = n['var']
                    self.loc_ty[v['id']] = v['ty']
                    src = self.lv(n['range'])
                    t = P.ty(v['ty'])
                    if t.get('ref'): env[v['id']] |= src
                    elif self.aliasing(v['ty']):
                        env[v['id']] |= self.deref_ty(v['ty'])
                    for b in v.get('bind', ()):
                        env[b['id']] |= src
                        self.loc_ty.setdefault(b['id'], None)
                elif k == 'asg' and n['op'] == '=':
                    a = n['a']
                    if a['k'] == 'ref' and a.get('dk') in ('local', 'parm') and 'ptr' in P.ty(a.get('ty', '')):
                        env[a['id']] |= self.pts(n['b'])
                elif k == 'call' and n.get('op') == '=' and 'obj' in n:
                    a = n['obj']
                    if a['k'] == 'ref' and a.get('dk') in ('local', 'parm') and self.aliasing(a.get('ty', '')) and n['args']:
                        env[a['id']] |= self.pts(n['args'][0])
            if sum(len(v) for v in env.values()) == sz: break
        for i in f.get('inits', ()):
            if 'f' in i:
                self.w({(('T',), (i['f'],))}, i, None, None)
        for n in walk_fn(f):
            self.visit(n)
        for n in walk_fn(f):
            if n.get('k') == 'return' and 'e' in n:
                t = P.ty(f['rt'])
                if t.get('ref'):
                    s = self.lv(n['e'])
                elif self.aliasing(f['rt']):
                    s = self.pts(n['e'])
                else: s = set()
                for x in s:
                    if x[0][0] not in ('L', 'X'): self.ret[fid].add(x)
                    elif x[0][0] == 'X': self.ret[fid].add(X)
        for d in P.local_dtors(fid):
            pass
        return before != (len(self.R[fid]), len(self.W[fid]), len(self.ret[fid]), self._lk(fid))

    def _lk(self, fid):
        return sum(len(v) for v in self.LW[fid].values()) + sum(len(v) for v in self.LR[fid].values())

    def _locks(self, f):
        """node -> mutexes held there, for scoped guards on named mutexes."""
        out = {}
        if not any(n.get('k') == 'var' and (self.P.ty(n.get('ty', '')).get('rec') or '') in LOCKS for n in walk_fn(f)): return out

        def go(n, held):
            if held: out[id(n)] = held
            if n.get('k') == 'block':
                h = held
                for c in n['s']:
                    if c is None: continue
                    go(c, h)
                    if c.get('k') == 'decl':
                        for v in c['v']:
                            if (self.P.ty(v.get('ty', '')).get('rec') or '') in LOCKS and 'init' in v:
                                h = h | self._mutexes(v['init'])
                return
            for c in kids(n): go(c, held)
        if f.get('body'): go(f['body'], frozenset())
        return out

    def _mutexes(self, e):
        m = set()
        for a in e.get('args', e.get('a', ())):
            while a.get('k') == 'cast': a = a['e']
            if a.get('k') == 'ref' and a.get('dk') == 'global': m.add(a['q'])
            elif a.get('k') == 'mem': m.add(a['q'])
        return frozenset(m)

    # ------------------------------------------------------------------
    def aliasing(self, ty):
        t = self.P.ty(ty)
        if t.get('ref') or 'ptr' in t: return True
        r = t.get('rec') or ''
        if r in SMART or 'iterator' in r.lower(): return True
        return False

    def is_iter(self, ty):
        r = self.P.ty(ty).get('rec') or ''
        return 'iterator' in r.lower()

    def is_smart(self, ty):
        return (self.P.ty(ty).get('rec') or '') in SMART

    def deref_ty(self, ty):
        r = self.P.rec_of(ty)
        t = self.P.ty(ty)
        if r is None:
            return {(('H', t.get('ptr', ty)), ())}
        return {(('H', r), ())}

    def pts_or_lv(self, e, ty):
        t = self.P.ty(ty)
        return self.lv(e) if t.get('ref') else self.pts(e)

    def local(self, e):
        i = e['id']
        if i not in self.own:
            return None
        return i

    def pts(self, e):
        """What a pointer / smart pointer / iterator valued expression may point to."""
        P = self.P; k = e['k']
        if k == 'cast' :
            return self.pts(e['e'])
        if k == 'this': return {(('T',), ())}
        if k in ('nullptr', 'int', 'zero'): return set()
        if k == 'str': return set()
        if k == 'un' and e['op'] == '&': return self.lv(e['e'])
        if k == 'un' and e['op'] in ('pre++', 'pre--', 'post++', 'post--'): return self.pts(e['e'])
        if k == 'bin': return self.pts(e['a']) | self.pts(e['b']) if 'ptr' in P.ty(e.get('ty', '')) else set()
        if k == 'asg': return self.pts(e['b'])
        if k == 'cond': return self.pts(e['t']) | self.pts(e['e'])
        if k == 'new': return {X}
        if k == 'lambda': return set()
        if k == 'init':
            s = set()
            for a in e['a']: s |= self.pts(a)
            return s
        ty = e.get('ty', '')
        if k == 'ref':
            if e.get('dk') in ('local', 'parm'):
                i = e['id']
                if i in self.own:
                    vt = P.ty(self.loc_ty.get(i) or '')
                    if i in self.params:
                        if 'ptr' in vt: return {(('P', self.params[i][0]), ())} | set(self.cenv.get(i, ()))
                        if vt.get('ref') and not self.is_smart(ty) and not self.is_iter(ty) and 'ptr' not in P.ty(ty): return {(('P', self.params[i][0]), ())}
                        if self.is_smart(ty) or 'ptr' in P.ty(ty): return self.deref_ty(ty)
                        return {(('P', self.params[i][0]), ())}
                    if vt.get('ref') and (self.is_smart(ty) or 'ptr' in P.ty(ty)):
                        return self.deref_ty(ty)
                    if self.cenv.get(i): return set(self.cenv[i])
                    if vt.get('elem'): return {(('L', i), ())}
                    return self.deref_ty(ty) if self.aliasing(ty) and not self.is_iter(ty) else set()
                if self.aliasing(ty): return self.deref_ty(ty)
                return {(('C', i), ())}
            if e.get('dk') == 'global':
                if 'elem' in P.ty(ty): return {(('G', e['q']), ())}
                return self.deref_ty(ty)
            return set()
        if k in ('mem', 'idx'):
            if 'elem' in P.ty(ty): return self.lv(e)
            if not self.aliasing(ty): return self.lv(e)
            t = P.ty(ty)
            if k == 'mem' and 'ptr' in t and not P.rec_of(ty) and 'ptr' not in P.ty(t['ptr']): return self.lv(e)   # raw buffer owned by the object
            return self.deref_ty(ty)
        if k == 'un' and e['op'] == '*':
            if self.aliasing(ty): return self.deref_ty(ty)
            return self.lv(e)
        if k == 'ctor':
            if self.aliasing(ty):
                s = set()
                for a in e['args']: s |= self.pts(a)
                return s
            return {X}
        if k == 'call':
            return self.call_ret(e, want_ptr=True)
        return {X}

    def call_ret(self, e, want_ptr):
        P = self.P
        name = e.get('name', '')
        tl = tail(name)
        ts = P.targets(e)
        s = set()
        if ts:
            for t in ts:
                for loc in self.ret[t]:
                    s |= self.subst(loc, e, t)
            rt = P.ty(e.get('rt', ''))
            if rt.get('ref') and want_ptr and self.aliasing(e.get('ty', '')) :
                return self.deref_ty(e['ty'])
            return s or {X}
        if 'fx' in e: return {X}
        if e.get('op') == '[]' or tl in ACCESS or e.get('op') in ('*', '->', '=', '++', '--', '+', '-', '+=', '-=') or tl in ('insert', 'emplace', 'emplace_back', 'erase', 'append', 'replace', 'push_back', 'get'):
            o = e.get('obj')
            if o is None:
                if tl in ('get', 'operator+', 'operator-') and e['args']:
                    return self.lv(e['args'][0]) if not self.is_iter(e['args'][0].get('ty', '')) else self.pts(e['args'][0])
                if e.get('op') in ('+', '-', '<<', '>>') and e['args']: return {X}
                return {X}
            ot = o.get('ty', '')
            if self.is_smart(ot):
                if tl in ('operator*', 'operator->', 'get', 'lock') or e.get('op') in ('*', '->'):
                    base = self.pts(o)
                    return base or self.deref_ty(ot)
                return self.lv(o)
            if self.is_iter(ot):
                b = self.pts(o)
                if want_ptr and (self.is_smart(e.get('ty', '')) or 'ptr' in P.ty(e.get('ty', ''))) and e.get('op') == '*':
                    return self.deref_ty(e['ty'])
                return b
            if want_ptr and (self.is_smart(e.get('ty', ''))) and e.get('op') == '[]' or (want_ptr and self.is_smart(e.get('ty', '')) and tl in ('back', 'front', 'at')):
                return self.deref_ty(e['ty'])
            if want_ptr and 'ptr' in P.ty(e.get('ty', '')) and tl in ('back', 'front', 'at', 'operator[]'):
                return self.deref_ty(e['ty'])
            return self.lv(o)
        if name in ('std::move', 'std::forward', 'std::min', 'std::max', 'std::get', 'std::ref', 'std::addressof', 'std::as_const'):
            s = set()
            for a in e['args']:
                s |= (self.pts(a) if want_ptr else self.lv(a))
            return s
        if tl in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast'):
            return self.pts(e['args'][0])
        if name in ('std::begin', 'std::end', 'std::find', 'std::find_if', 'std::lower_bound', 'std::upper_bound', 'std::next', 'std::prev', 'std::remove_if', 'std::unique'):
            return self.lv(e['args'][0]) if name in ('std::begin', 'std::end') else self.pts(e['args'][0])
        rt = P.ty(e.get('rt', ''))
        if rt.get('ref') and 'obj' in e:
            return self.lv(e['obj'])
        if rt.get('ref') and e['args']:
            return self.lv(e['args'][0])
        return {X}

    def lv(self, e):
        """Locations denoted by an lvalue expression."""
        P = self.P; k = e['k']
        if k == 'cast': return self.lv(e['e'])
        if k == 'this': return {(('T',), ())}
        if k == 'ref':
            dk = e.get('dk')
            if dk in ('local', 'parm'):
                i = e['id']
                if i not in self.own:
                    return {(('C', i), ())}
                vt = P.ty(self.loc_ty.get(i) or '')
                if i in self.params:
                    if vt.get('ref'): return {(('P', self.params[i][0]), ())}
                    return {(('L', i), ())}
                if vt.get('ref') or self.loc_ty.get(i) is None:
                    return set(self.cenv.get(i, ())) or {X}
                return {(('L', i), ())}
            if dk == 'global':
                return {(('G', e['q']), ())}
            return set()
        if k == 'mem':
            base = self.pts(e['b']) if e.get('arrow') else self.lv(e['b'])
            t = P.ty(e.get('ty', ''))
            return {ext(b, e['q']) if b[0][0] != 'X' else X for b in base}
        if k == 'idx':
            return self.pts(e['b'])
        if k == 'un':
            if e['op'] == '*': return self.pts(e['e'])
            if e['op'].startswith('pre') or e['op'].startswith('post'): return self.lv(e['e'])
            return {X}
        if k == 'asg': return self.lv(e['a'])
        if k == 'cond': return self.lv(e['t']) | self.lv(e['e'])
        if k == 'call':
            rt = P.ty(e.get('rt', ''))
            if not rt.get('ref') and not e.get('op') in ('*', '[]', '='):
                # prvalue: a fresh temporary (aliasing values handled by pts)
                if self.aliasing(e.get('ty', '')): return {X}
                return {X}
            return self.call_ret(e, want_ptr=False)
        return {X}

    # ------------------------------------------------------------------
    def subst(self, loc, call, target):
        """Map a location of the callee summary into the caller's terms."""
        (r, p) = loc
        k = r[0]
        if k in ('G', 'H'): return {loc}
        if k == 'X': return {X}
        if k == 'C':
            i = r[1]
            if i in self.own:
                vt = self.P.ty(self.loc_ty.get(i) or '')
                if i in self.params:
                    base = {(('P', self.params[i][0]), ())} if (vt.get('ref') or 'ptr' in vt) else {(('L', i), ())}
                elif vt.get('ref') or 'ptr' in vt:
                    base = set(self.cenv.get(i, ())) or {X}
                else: base = {(('L', i), ())}
            else: base = {(r, ())}
        elif k == 'T':
            o = call.get('obj')
            if call['k'] == 'ctor': base = {X}
            elif o is None: base = {(('T',), ())} if call['k'] == 'lambda' else {X}
            elif call.get('op') == '()' and target in self.P.lambdas: base = {(('T',), ())}
            else:
                base = self.pts(o) if (call.get('arrow') or 'ptr' in self.P.ty(o.get('ty', ''))) else self.lv(o)
        elif k == 'P':
            args = call.get('args', [])
            i = r[1]
            if i >= len(args): return {X}
            a = args[i]
            pt = self.P.fn[target]['params'][i]['ty']
            t = self.P.ty(pt)
            base = self.lv(a) if t.get('ref') else self.pts(a)
        else:
            return set()
        out = set()
        for b in base:
            if b[0][0] == 'X': out.add(X); continue
            x = b
            for q in p: x = ext(x, q)
            out.add(x)
        return out

    def _acc(self, tab, ltab, locs, node, callee, cloc, lk):
        held = self.locks.get(id(node), frozenset()) if self.locks else frozenset()
        if callee is not None: held = held | lk
        t = tab[self.fid]; lt = ltab[self.fid]
        if callee is None:
            d = (self.DW if tab is self.W else self.DR)[self.fid]
            for l in locs:
                if l[0][0] in ('L', 'X'): continue
                d[l] = (node.get('l'), held if l not in d else d[l][1] & held)
        for l in locs:
            if l[0][0] in ('L', 'X'): continue
            if l not in t:
                t[l] = (node.get('l'), callee, cloc); lt[l] = held
            elif lt[l]:
                h = lt[l] & held
                if len(h) != len(lt[l]):
                    lt[l] = h
                    t[l] = (node.get('l'), callee, cloc)

    def w(self, locs, node, callee, cloc, lk=frozenset()): self._acc(self.W, self.LW, locs, node, callee, cloc, lk)

    def r(self, locs, node, callee, cloc, lk=frozenset()): self._acc(self.R, self.LR, locs, node, callee, cloc, lk)

    def visit(self, n):
        P = self.P; k = n.get('k')
        if k == 'asg':
            self.w(self.lv(n['a']), n, None, None)
            if n['op'] != '=': self.r(self.lv(n['a']), n, None, None)
        elif k == 'un' and n['op'] in ('pre++', 'pre--', 'post++', 'post--'):
            self.w(self.lv(n['e']), n, None, None)
        elif k in ('mem',) or (k == 'ref' and n.get('dk') in ('global', 'local', 'parm')) or (k == 'un' and n['op'] == '*') or k == 'idx':
            if id(n) not in self.base: self.r(self.lv(n), n, None, None)
        elif k in ('call', 'ctor', 'lambda'):
            ts = P.targets(n) if k != 'lambda' else [n['fn']]
            if k == 'lambda': ts = [t for t in ts if t in P.fn]
            new = k == 'ctor' or n.get('name') in MAKE
            for t in ts:
                for loc in list(self.W[t]):
                    if new and loc[0][0] == 'T':
                        continue
                    self.w(self.subst(loc, n, t), n, t, loc, self.LW[t][loc])
                for loc in list(self.R[t]):
                    if new and loc[0][0] == 'T': continue
                    self.r(self.subst(loc, n, t), n, t, loc, self.LR[t][loc])
            if ts or k == 'lambda': return
            # external
            if k == 'ctor':
                pm = n.get('pm', '')
                for a, m in zip(n['args'], pm):
                    if m == 'n' or m == 'm': self.w(self.lv(a), n, None, None)
                return
            name = n.get('name', ''); tl = tail(name)
            if tl in HIDDEN and (name == tl or name == 'std::' + tl): self.w({(('G', 'libc::' + tl), ())}, n, None, None)
            o = n.get('obj')
            if o is not None and not n.get('cm') and not n.get('stm') and 'fx' not in n:
                ot = o.get('ty', '')
                isacc = tl in ACCESS
                if tl == 'operator[]' and n.get('cls') in MAPS: isacc = False
                if self.is_iter(ot) and tl in ('operator*', 'operator->'): isacc = True
                if tl == 'operator conversion': isacc = True
                if not isacc:
                    base = self.pts(o) if n.get('arrow') and not self.is_iter(ot) and 'ptr' in P.ty(ot) else self.lv(o)
                    self.w(base, n, None, None)
            pm = n.get('pm', '')
            args = n['args']
            for a, m in zip(args, pm):
                if m == 'n': 
                    if name in ('std::get', 'std::ref', 'std::as_const', 'std::addressof', 'std::min', 'std::max', 'std::begin', 'std::end'): continue
                    self.w(self.lv(a), n, None, None)
                elif m == 'm':
                    if name not in ('std::move', 'std::forward', 'std::get'): self.w(self.lv(a), n, None, None)
                elif m == 'q':
                    self.w(self.pts(a), n, None, None)
            if name == 'std::move' and args:
                pass
        elif k == 'delete':
            pass

    # ------------------------------------------------------------------ queries
    def witness(self, fid, loc, kind='W', depth=12):
        """Call path explaining why fid reads/writes loc."""
        out = []
        tab = self.W if kind == 'W' else self.R
        while depth:
            depth -= 1
            f = self.P.fn[fid]
            w = tab[fid].get(loc)
            if w is None:
                out.append('%s' % f['name']); break
            out.append('%s (%s:%s)' % (f['name'], f['file'], w[0]))
            if w[1] is None: break
            fid, loc = w[1], w[2]
        return ' -> '.join(out)


def show(loc):
    r, p = loc
    base = {'G': lambda: r[1], 'T': lambda: 'this', 'P': lambda: 'param%d' % r[1], 'H': lambda: '<%s>' % r[1], 'C': lambda: 'captured#%s' % r[1]}.get(r[0], lambda: str(r))()
    return base + ''.join('.' + tail(x) for x in p)


def overlap(P, a, b):
    (ra, pa), (rb, pb) = a, b
    n = min(len(pa), len(pb))
    if pa[:n] != pb[:n]: return False
    if ra == rb: return True

    def recs(r):
        if r[0] == 'H': return r[1]
        if r[0] == 'G': return P.rec_of(P.vars.get(r[1], {}).get('ty', ''))
        return None
    if ra[0] in ('G', 'H') and rb[0] in ('G', 'H') and not (ra[0] == 'G' and rb[0] == 'G'):
        if n > 0 and pa[0] == pb[0]: return True      # the same field of a class
        x, y = recs(ra), recs(rb)
        if ra[0] == 'G' and 'ptr' in P.ty(P.vars.get(ra[1], {}).get('ty', '')) or rb[0] == 'G' and 'ptr' in P.ty(P.vars.get(rb[1], {}).get('ty', '')):
            return False   # the pointer variable itself, not its target
        if x and y and (P.is_a(x, y) or P.is_a(y, x)): return True
    return False


class Collector:
    """Effects of single nodes of a function, in the function's own terms (locals included)."""
    def __init__(self, E, fid):
        self.E = E; self.fid = fid

    def nodes(self, ns):
        E = self.E
        E._analyse(self.fid)
        W, R, LW, LR = {}, {}, {}, {}
        held = E.locks

        def acc(tab, ltab):
            def f(locs, node, callee, cloc, lk=frozenset()):
                h = held.get(id(node), frozenset()) | (lk if callee is not None else frozenset())
                for l in locs:
                    if l[0][0] == 'X': continue
                    if l not in tab: tab[l] = (node.get('l'), callee, cloc); ltab[l] = h
                    else: ltab[l] = ltab[l] & h
            return f
        E.w = acc(W, LW); E.r = acc(R, LR)
        try:
            for n in ns: E.visit(n)
        finally:
            del E.w; del E.r
        return W, R, LW, LR
