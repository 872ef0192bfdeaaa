from front import Broken
from prog import tail, walk_fn, walk, strip, kids
from effects import Collector, show, overlap
from cfg import cfg
import check as CK

RULE = """happens-in-parallel conflict analysis: for every thread started, the code that can run between its start and its join (other threads included) and the thread body are summarised by interprocedural mod/ref effects; two accesses to overlapping locations, at least one a write, without a common mutex are a violation; every started thread is joined on every path; every path that outputs performs the binary, listing and symbol activity exactly as the parallel path does"""
ASSUMPTIONS = ['distinct reference parameters of the function starting the threads do not alias', 'writing to std::cout from several threads is synchronised by the C++ library', 'objects reached through an untracked temporary are not shared']
THREAD = ('std::thread', 'std::jthread', 'std::future')
SAFE_G = ('std::cout', 'std::cerr', 'std::clog')


def handle_of(e):
    e = strip(e)
    if e.get('k') == 'ref' and e.get('dk') in ('local', 'parm'): return e['id']
    if e.get('k') == 'call' and e.get('op') in ('[]', '*', '->') and 'obj' in e: return handle_of(e['obj'])
    if e.get('k') == 'call' and tail(e.get('name', '')) in ('back', 'front', 'at') and 'obj' in e: return handle_of(e['obj'])
    if e.get('k') == 'idx': return handle_of(e['b'])
    return None


def callables(P, f, args):
    """Function ids a thread started with these arguments runs."""
    out = []
    inits = {}
    for n in walk_fn(f):
        if n.get('k') == 'var' and 'init' in n: inits[n['id']] = n['init']
    for a in args:
        todo = [a]; seen = 0
        while todo and seen < 60:
            seen += 1
            x = todo.pop()
            if x is None: continue
            k = x.get('k')
            if k == 'lambda': out.append((x['fn'], x)); continue
            if k == 'ref' and x.get('dk') == 'func' and x['fn'] in P.fn: out.append((x['fn'], x)); continue
            if k == 'ref' and x.get('id') in inits:
                todo.append(inits[x['id']]); continue
            todo += list(kids(x))
    return out


def threads(P, fid):
    """[(node, handle, [(body fid, node)])]"""
    f = P.fn[fid]; res = []
    for n in walk_fn(f):
        k = n.get('k')
        if k == 'var' and 'init' in n:
            t = P.ty(n['ty']).get('rec')
            if t in THREAD:
                cs = [c for c in walk(n['init']) if (c.get('k') == 'ctor' and P.ty(c.get('ty', '')).get('rec') in THREAD) or (c.get('k') == 'call' and c.get('name') == 'std::async')]
                for c in cs:
                    if c['args'] and c.get('cp') not in ('copy', 'move'): res.append((c, n['id'], callables(P, f, c['args']), t))
        elif k == 'call' and tail(n.get('name', '')) in ('emplace_back', 'push_back') and 'obj' in n and any(x in str(P.ty(n['obj'].get('ty', '')).get('targs')) for x in ('std::thread', 'std::jthread', 'std::future')):
            res.append((n, handle_of(n['obj']), callables(P, f, n['args']), 'std::future' if 'future' in n['obj'].get('ty', '') else 'std::thread'))
        elif k == 'asg' or (k == 'call' and n.get('op') == '='):
            a = n.get('a') or n.get('obj'); b = n.get('b') or (n['args'][0] if n.get('args') else None)
            if a is not None and b is not None and P.ty(a.get('ty', '')).get('rec') in THREAD:
                for c in walk(b):
                    if (c.get('k') == 'ctor' and P.ty(c.get('ty', '')).get('rec') in THREAD and c.get('cp') not in ('copy', 'move') and c['args']) or (c.get('k') == 'call' and c.get('name') == 'std::async'):
                        res.append((c, handle_of(a), callables(P, f, c['args']), P.ty(a['ty'])['rec']))
    # discarded std::async blocks in its destructor; a bare temporary thread would terminate: neither is concurrent
    return res


def join_nodes(P, fid, g, h, kind):
    """CFG node ids after which the thread(s) behind handle h have ended."""
    out = set()
    names = ('join',) if kind != 'std::future' else ('get', 'wait')
    loopvars = {}
    for n in walk_fn(P.fn[fid]):
        if n.get('k') == 'rangefor' and handle_of(n['range']) == h: loopvars[n['var']['id']] = n
    for x in g.nodes:
        if x.kind == 'call' and x.n.get('k') == 'call' and tail(x.n.get('name', '')) in names and 'obj' in x.n:
            o = strip(x.n['obj'])
            i = handle_of(o)
            if i == h and strip(x.n['obj']).get('k') == 'ref': out.add(x.id)
            elif i in loopvars or (i == h):
                # in a loop over the handles: joined when the loop is left
                lp = loopvars.get(i)
                if lp is None:
                    for l in walk_fn(P.fn[fid]):
                        if l.get('k') in ('for', 'while', 'do') and any(y is x.n for y in walk(l)): lp = l
                js = [y for y in g.nodes if y.kind == 'join' and y.n is lp]
                if js: out.add(js[0].id)
                else: out.add(x.id)
        if kind != 'std::thread' and x.kind == 'dtor' and x.n.get('id') == h: out.add(x.id)
    return out


def after(g, start, stops):
    seen = set(); st = [y for y, l in start.succ]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.id in stops: continue
        for y, l in x.succ: st.append(y)
    return seen


def leaves(P, E, root_fids, loc, kind):
    """Functions that make the access to a global location themselves."""
    D = E.DW if kind == 'W' else E.DR
    out = []
    for g in P.reach(root_fids):
        for l in D[g]:
            if l == loc or overlap(P, l, loc):
                if l[0][0] == loc[0][0]: out.append((P.fn[g]['name'], l, D[g][l]))
    return out


def check(P, res, tier):
    E = CK.effects()
    starters = []
    for i in sorted(P.fn):
        t = threads(P, i)
        if t: starters.append((i, t))
    res.stats['functions_starting_threads'] = len(starters)
    nconf = 0; nthreads = 0; pairs = 0
    if not starters:
        res.ob('no thread is started anywhere in the program')
    for fid, ts in starters:
        g = cfg(P, fid)
        acts = []
        for node, h, bodies, kind in ts:
            nthreads += 1
            if not bodies:
                raise Broken('%s: the code run by this thread could not be determined' % P.where(fid, node))
            start = [x for x in g.nodes if x.n is node or (x.n is not None and any(y is node for y in walk(x.n)) and x.kind in ('call', 'var', 'asg'))]
            if not start: raise Broken('%s: thread start not in the control-flow graph' % P.where(fid, node))
            start = start[0]
            det = [x for x in g.nodes if x.kind == 'call' and tail(x.n.get('name', '')) == 'detach' and 'obj' in x.n and handle_of(x.n['obj']) == h]
            js = join_nodes(P, fid, g, h, kind)
            reg = after(g, start, js)
            ok = g.exit.id not in (reg - js)
            # leaving through a scope-exit destructor joins only futures and jthreads
            res.ob('thread started at %s is joined on every path' % P.where(fid, node), ok and not det, 'join/%s/%s' % (P.fn[fid]['name'], bodies[0][0].split('::')[-2] if '::' in bodies[0][0] else bodies[0][0]),
                   '%s: the thread started here has not ended on some path to the end of the function' % P.where(fid, node))
            acts.append((node, start, reg, bodies, js))
        col = Collector(E, fid)
        for k, (node, start, reg, bodies, js) in enumerate(acts):
            # thread body in the starter's terms
            tb = col.nodes([b[1] if b[1].get('k') == 'lambda' else {'k': 'call', 'fn': b[0], 'name': P.fn[b[0]]['name'], 'args': [a for a in node['args'][1:]], 'l': node.get('l'), 'pm': ''} for b in bodies])
            broots = [b[0] for b in bodies]
            # what runs at the same time in the starting function
            ns = []; roots2 = set()
            for x in g.nodes:
                if x.id in reg and x.n is not None and x.kind not in ('join',) and x.id not in js and x is not start:
                    if any(x is a[1] for a in acts): continue
                    for y in ([x.n] if x.kind in ('call',) else walk(x.n) if x.kind in ('asg', 'inc', 'ret', 'br', 'sw') else []):
                        ns.append(y)
                    if x.kind == 'call':
                        for t in P.targets(x.n): roots2.add(t)
            others = [('the starting function', col.nodes(ns), roots2)]
            for k2, (node2, start2, reg2, bodies2, js2) in enumerate(acts):
                if k2 < k and acts[k][1].id in reg2 or (k2 > k and start2.id in reg and False):
                    tb2 = col.nodes([b[1] if b[1].get('k') == 'lambda' else {'k': 'call', 'fn': b[0], 'name': P.fn[b[0]]['name'], 'args': node2['args'][1:], 'l': node2.get('l'), 'pm': ''} for b in bodies2])
                    others.append(('the thread started at line %s' % node2.get('l'), tb2, set(b[0] for b in bodies2)))
            for who, (W2, R2, LW2, LR2), rts2 in others:
                W1, R1, LW1, LR1 = tb
                pairs += 1
                found = False
                for (Wa, LWa, ra, Ob, Lb, rb, kd) in ((W1, LW1, broots, W2, LW2, rts2, 'W'), (W1, LW1, broots, R2, LR2, rts2, 'R'), (W2, LW2, rts2, R1, LR1, broots, 'R')):
                    for l in Wa:
                        if l[0][0] == 'G' and (l[0][1] in SAFE_G or sync_type(P, l)): continue
                        for m in Ob:
                            if not overlap(P, l, m): continue
                            if LWa[l] & Lb[m]: continue
                            found = True; nconf += 1
                            report(P, E, res, fid, node, l, ra, m, rb, kd, who)
                res.ob('thread at %s against %s: %d x %d locations' % (P.where(fid, node), who, len(W1) + len(R1), len(W2) + len(R2)), True)
    res.stats['threads'] = nthreads; res.stats['concurrent_pairs'] = pairs; res.stats['conflicts'] = nconf
    activities(P, res, [s[0] for s in starters])


def sync_type(P, l):
    if P.vars.get(l[0][1], {}).get('tls'): return True     # every thread has its own
    if l[1]: return False
    t = P.vars.get(l[0][1], {}).get('ty', '')
    r = P.ty(t).get('rec') or t
    return 'mutex' in r or r.startswith('std::atomic') or r.startswith('std::condition_variable') or r.startswith('std::once_flag')


def report(P, E, res, fid, node, l, ra, m, rb, kd, who):
    la = leaves(P, E, ra, l, 'W') or [('?', l, (0, frozenset()))]
    lb = leaves(P, E, rb, m, kd) or [('?', m, (0, frozenset()))]
    for na, ln, (lna, _) in la:
        for nb, lm, (lnb, _) in lb:
            key = 'race/%s/%s/%s' % (show(max(ln, lm, key=lambda q: len(q[1]))), na, nb)
            wa = next((E.witness(r, x, 'W') for r in ra for x in E.W.get(r, ()) if x == l), '')
            wb = next((E.witness(r, x, kd) for r in rb for x in (E.W if kd == 'W' else E.R).get(r, ()) if x == m), '')
            res.bad(key, '%s starts concurrent code: %s is written by %s (line %s) and %s by %s (line %s) without synchronisation [%s | %s]' % (
                P.where(fid, node), show(l), na, lna, 'written' if kd == 'W' else 'read', nb, lnb, wa[-300:], wb[-300:]))


def activities(P, res, starters):
    """Every path that reaches binary output also performs listing and symbol output, threaded or not."""
    from props.C01 import reaching
    kinds = {}
    for nm, m in (('binary', 'Encode() const'), ('listing', 'writeTempData(TempData &) const'), ('symbols', 'writeSymData(SymbolData &) const')):
        kinds[nm] = reaching(P, set(i for i in P.over['CAssemblerCommand::' + m] if i in P.fn))
    root = P.one('runArmips')
    cand = [i for i in P.reach([root]) if not P.is_a(P.fn[i].get('cls') or '', 'CAssemblerCommand')]
    # the innermost functions that start all three activities
    owners = [i for i in cand if all(i in k for k in kinds.values())]
    inner = [i for i in owners if not any(j in P.callees(i) and j != i for j in owners)]
    if not inner: raise Broken('no function performs all three output activities')
    for fid in inner:
        g = cfg(P, fid)
        th = {}
        for node, h, bodies, kind in threads(P, fid):
            th[id(node)] = [b[0] for b in bodies]
        gen = {}
        for x in g.nodes:
            if x.n is None or x.kind not in ('call', 'var', 'asg'): continue
            s = set()
            if x.kind == 'call' and x.n.get('k') in ('call', 'ctor'):
                if id(x.n) in th: tg = th[id(x.n)]
                else: tg = P.targets(x.n)
                for t in tg:
                    for nm, k in kinds.items():
                        if t in k: s.add(nm)
            if s: gen[x.id] = frozenset(s)
        # forward: sets of activities performed, per path
        states = {g.entry.id: {frozenset()}}
        wl = [g.entry]
        while wl:
            x = wl.pop()
            outs = set(st | gen.get(x.id, frozenset()) for st in states[x.id])
            for y, l in x.succ:
                cur = states.setdefault(y.id, set())
                if not outs <= cur:
                    cur |= outs; wl.append(y)
        ends = states.get(g.exit.id, set())
        part = [e for e in ends if e and e != frozenset(kinds)]
        res.ob('%s: every outputting path performs binary, listing and symbol output' % P.fn[fid]['name'], not part, 'activities/%s' % P.fn[fid]['name'],
               '%s: some path performs only %s output' % (P.where(fid), ' and '.join(sorted(part[0])) if part else ''))
        if not any(e for e in ends): raise Broken('no outputting path in %s' % fid)
