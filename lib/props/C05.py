from front import Broken
from prog import tail, walk_fn, walk, strip
from effects import show, overlap
from exposed import Exposed
from cfg import cfg
from props.C01 import reaching
import check as CK


def leaves(P, ty, depth=0):
    """Member paths of a class type that hold state."""
    t = P.ty(ty); rec = t.get('rec')
    if rec in P.rec and 'ptr' not in t and depth < 3:
        out = []
        todo = [rec]; seen = set()
        while todo:
            r = todo.pop()
            if r in seen or r not in P.rec: continue
            seen.add(r)
            for fd in P.rec[r]['fields']:
                if fd.get('static') or (r == 'ByteArray' and fd['n'] != 'size_'): continue
                q = fd.get('q') or (r + '::' + fd['n'])
                for s in leaves(P, fd['ty'], depth + 1): out.append((q,) + s)
            todo += P.rec[r]['bases']
        return out or [()]
    return [()]


def constructed(P, cls):
    for i, f in P.fn.items():
        for n in walk_fn(f):
            if n.get('k') == 'ctor' and P.ty(n.get('ty', '')).get('rec') == cls and not n.get('base'): return True
            if n.get('k') == 'call' and tail(n.get('name', '')) in ('make_shared', 'make_unique') and P.rec_of(n.get('ty', '')) == cls: return True
    return False


def mutable_vars(P):
    return {q: v for q, v in P.vars.items() if not v['ty'].startswith('const ') and not v.get('const')}


def analyse(P, E):
    root = P.one('runArmips')
    fns = P.reach([root])
    vs = mutable_vars(P)
    written = set()
    for i in fns:
        for l in E.W[i]:
            if l[0][0] == 'G': written.add(l)
            elif l[0][0] == 'H': written.add(l)
            elif l[0][0] == 'T' and P.fn[i].get('cls'): written.add((('H', P.fn[i]['cls']), l[1]))
    U = set()
    single = {}
    for q, v in vs.items():
        for p in leaves(P, v['ty']):
            loc = (('G', q), p)
            if any(overlap(P, loc, w) for w in written): U.add(loc)
        r = P.ty(v['ty']).get('rec')
        if r in P.rec and 'ptr' not in P.ty(v['ty']): single.setdefault(r, []).append(q)
    byroot = {}
    for u in U: byroot.setdefault(u[0], []).append(u)

    cache = {}
    def canon(f, l):
        k = l
        if l[0][0] == 'T':
            cls = P.fn[f].get('cls')
            if cls is None: return ()
            k = (('H', cls), l[1])
        elif l[0][0] not in ('G', 'H'): return ()
        r = cache.get(k)
        if r is None:
            r = cache[k] = [u for u in U if overlap(P, k, u) and (k[1] or k[0][0] == 'G')]
        return r
    # the prologue of the run: everything before a parse can have happened
    g = cfg(P, root)
    parse = reaching(P, set(P.find('Parser::parseFile')) | set(i for i in P.over['CAssemblerCommand::Validate(const ValidateState &)'] if i in P.fn))
    seen = set(); st = [x for x in g.nodes if x.kind == 'call' and any(t in parse for t in P.targets(x.n))]
    if not st: raise Broken('the run does not parse anything')
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        for y, l in x.succ: st.append(y)
    return Exposed(P, E, U, [root], canon, {root: set(x.id for x in g.nodes) - seen}, {c: v[0] for c, v in single.items() if len(v) == 1 and not constructed(P, c)}), U


RULE = """must-reset analysis: every mutable variable with static storage (and every member of it) that a run can change is enumerated; from the point where a program can first be parsed, no path may read it before it has been overwritten, i.e. the start of every run overwrites it (interprocedural upward-exposed-read and must-write dataflow)"""
ASSUMPTIONS = ['state kept outside the process image (files, environment) is an input of the run', 'lazily built constant tables (filled once, only while empty) carry no information between runs', 'a container that is only ever appended to and never read influences nothing']

APPEND = {'push_back', 'emplace_back', 'insert', 'emplace', 'push'}


def init_once(P, E, q):
    """A static local that its function fills only while it is empty, from constants."""
    owner = q.rsplit('::', 1)[0]
    if owner not in P.fn: return False
    g = cfg(P, owner)
    E._analyse(owner)
    for x in g.nodes:    # handed out: others may change it
        if x.kind == 'ret' and x.n is not None and any(n.get('k') == 'ref' and n.get('q') == q for n in walk(x.n)) and P.fn[owner].get('rt', '').endswith('&'): return False
    guards = [x for x in g.nodes if x.kind == 'br' and any(n.get('q') == q and n.get('k') == 'ref' for n in walk(x.n))]
    # other functions never get at it mutably except through calls made here
    from cfg import dominators
    writers = []
    for x in g.nodes:
        if x.n is None or x.kind not in ('call', 'asg', 'inc'): continue
        n = x.n
        hit = False
        if x.kind == 'call':
            o = n.get('obj')
            tgt = P.targets(n)
            if o is not None and any(y.get('q') == q for y in walk(o)):
                if tgt: hit = any(l[0] == ('T',) for t in tgt for l in E.W[t])
                else: hit = not n.get('cm') and tail(n.get('name', '')) not in ('begin', 'end', 'find', 'size', 'empty', 'at')
            for i, a in enumerate(n.get('args', ())):
                if strip(a).get('q') == q and strip(a).get('k') == 'ref':
                    if tgt: hit = hit or any(l[0] == ('P', i) for t in tgt for l in E.W[t])
        elif x.kind == 'asg': hit = any(y.get('q') == q for y in walk(n['a']))
        elif x.kind == 'inc': hit = any(y.get('q') == q for y in walk(n))
        if hit: writers.append(x)
    if not writers: return True
    dom = dominators(g)
    for w in writers:
        if not any(b.id in dom.get(w.id, ()) for b in guards): return False
        # values only from constants: no parameter or this in the arguments
        for a in w.n.get('args', []) if w.kind == 'call' else [w.n.get('b') or {}]:
            for y in walk(a):
                if y.get('k') == 'ref' and y.get('dk') == 'parm': return False
                if y.get('k') == 'this': return False
    return True


def check(P, res, tier):
    from props import C02
    from typestate import Typestate
    E = CK.effects()
    X, U = analyse(P, E)
    root = P.one('runArmips')
    vs = mutable_vars(P)
    res.need(len(U), 40, 'state_locations')
    res.stats['variables'] = len(vs); res.stats['functions_of_a_run'] = len(X.fns)
    exp = X.EXP[root]
    once = {}
    for u in sorted(U, key=str):
        q = u[0][1]
        t = vs[q]['ty']
        if 'mutex' in t or t.startswith('std::atomic_flag'): continue
        ok = u not in exp
        why = ''
        if not ok and vs[q].get('stloc'):
            if q not in once: once[q] = init_once(P, E, q)
            if once[q]: ok = True; why = ' (constant table, filled once)'
        if not ok and balanced(P, E, u, vs, C02, Typestate): ok = True; why = ' (balanced counter)'
        if not ok and append_only(P, E, u, X.fns): ok = True; why = ' (never read)'
        res.ob('%s is reset or overwritten before a run reads it%s' % (show(u), why), ok, 'leak/%s' % show(u),
               '%s keeps its value from the previous run: it is read before being reset: %s' % (show(u), X.witness(root, u)))


def append_only(P, E, u, fns):
    """Nothing reads the container; it is only appended to."""
    fld = u[1][-1] if u[1] else None
    for f in fns:
        for n in walk_fn(P.fn[f]):
            hit = (fld and n.get('k') == 'mem' and n.get('q') == fld) or (not fld and n.get('k') == 'ref' and n.get('q') == u[0][1])
            if not hit: continue
            ok = False
            for m in walk_fn(P.fn[f]):
                if m.get('k') == 'call' and m.get('obj') is n and tail(m.get('name', '')) in APPEND | {'clear'}: ok = True
            if not ok: return False
    return True


def balanced(P, E, u, vs, C02, Typestate):
    """An integer only incremented and decremented by a pair of functions whose uses are balanced on every path."""
    if u[1]: return False
    up, down = set(), set()
    for i in P.fn:
        for n in walk_fn(P.fn[i]):
            if n.get('k') == 'un' and n['op'] in ('pre++', 'post++', 'pre--', 'post--') and strip(n['e']).get('q') == u[0][1]:
                (up if '++' in n['op'] else down).add(i)
            elif n.get('k') == 'asg' and strip(n['a']).get('q') == u[0][1]: return False
    if not up or not down or up & down: return False
    class R:
        def bad(s, *a): pass
    for i in sorted(P.fn):
        if i in up or i in down or P.fn[i].get('ctor') or P.fn[i].get('dtor'): continue
        if any(c.get('fn') in up or c.get('fn') in down for c, t in P.calls(i)):
            outs = Typestate(P, C02.Balance(P, R(), up, down), E).run(i, 0)
            if not all(q == 0 for q, r in outs): return False
    return True

