from collections import namedtuple
from front import Broken
from prog import tail, walk_fn, strip
from typestate import Typestate, Spec, stack_str
import check as CK

RULE = """typestate over the whole run: no operation that creates, truncates, overwrites, copies or removes a file is reachable before "queue printed, then error flag read as clear" has been passed with no later report; the write-access probe may only truncate a path known not to exist and must remove it again, and may never remove an existing one
(automaton over reported/queued/flushed/clear; interprocedural, branch-correlated summaries from runArmips)"""
LEVEL = 'other'
ASSUMPTIONS = ['std::filesystem and std::fstream behave as documented; a file name is not re-bound by another process between probe and removal']

Q = namedtuple('Q', 'phase pending flag lost created ex cells val')
TRUNC, OUT, IN, APP = 'trunc', 'out', 'in', 'app'
FSMUT = {'copy_file', 'rename', 'resize_file', 'copy', 'create_directory', 'create_directories', 'create_symlink', 'create_hard_link', 'permissions', 'last_write_time', 'remove_all'}
STREAMS = ('std::basic_ofstream', 'std::basic_fstream', 'std::basic_filebuf', 'ghc::filesystem::basic_ofstream', 'ghc::filesystem::basic_fstream')
M_APP, M_IN, M_OUT, M_TRUNC = 1, 8, 16, 32     # libstdc++ _Ios_Openmode


def is_stream_open(n):
    if n['k'] == 'call' and tail(n.get('name', '')) == 'open' and n.get('cls', '') in STREAMS: return True
    if n['k'] == 'ctor' and n.get('cls', '') in STREAMS and n['args'] and n.get('cp') not in ('move', 'copy'): return True
    return False


def is_sink(n):
    nm = n.get('name', '')
    if is_stream_open(n): return True
    if nm.startswith('std::filesystem::') and (tail(nm) in FSMUT or tail(nm) == 'remove'): return True
    if nm in ('fopen', 'freopen', 'remove', 'unlink', 'rename', 'truncate', 'creat', 'open', 'std::remove', 'std::rename', 'system', 'std::system', 'mkdir'): return True
    return False


class Gate(Spec):
    def __init__(s, P, res):
        s.P = P; s.res = res; s.sinks = set(); s.report = None
        base = [r for r in P.rec if r == 'AssemblerFile']
        if not base: raise Broken('output file class not found')
        s.cells = set()
        for r in P.subs['AssemblerFile']:
            for f in P.rec[r]['fields']:
                if P.ty(f['ty']).get('bool'): s.cells.add(f['q'])
        s.print_fns = set(P.find('Logger::printError')); s.queue_fns = set(P.find('Logger::queueError'))
        s.flush = set(P.find('Logger::printQueue')); s.clearq = set(P.find('Logger::clearQueue'))
        s.has = set(P.find('Logger::hasError'))
        s.clear = set(P.find('Logger::clear'))
        s.mayq = reaching(P, s.queue_fns); s.mayp = reaching(P, s.print_fns)
        s.validate = set(P.over['CAssemblerCommand::Validate(const ValidateState &)'])
        if not s.validate: raise Broken('Validate hierarchy not found')
        s.seen_gate = set()
        ev = {e['n']: e['v'] for q_, o in P.enums.items() if q_ == 'Logger::ErrorType' for e in o['e']}
        if not {'Error', 'FatalError'} <= set(ev): raise Broken('error severities not found')
        s.err = {ev['Error'], ev['FatalError']}
        # everything that belongs to producing output: its own failures cannot undo output
        outroots = set()
        for m in ('Encode() const', 'writeTempData(TempData &) const', 'writeSymData(SymbolData &) const'):
            ids = [i for i in P.over['CAssemblerCommand::' + m] if i in P.fn]
            if not ids: raise Broken('output phase %s not found' % m)
            outroots |= set(ids)
        for c in ('TempData', 'SymbolData', 'FileManager'):
            outroots |= set(i for i in P.fn if P.fn[i].get('cls') == c)
        s.outfns = P.reach(outroots)
        psrc = set(i for i in P.fn if i not in s.print_fns and i not in s.queue_fns and any(c.get('name') in ('Logger::queueError', 'Logger::printError') for c, t in P.calls(i)))
        s.newrep = reaching(P, psrc - s.outfns, s.outfns)

    def interesting(s, fid):
        return fid in s.flush or fid in s.has or fid in s.clearq
    def interesting_node(s, n):
        if n['k'] in ('call', 'ctor') and is_sink(n): return True
        if n['k'] in ('asg', 'mem') and (n['a'] if n['k'] == 'asg' else n).get('q') in s.cells: return True
        return False

    def mem_const(s, q, e):
        if e.get('q') in s.cells and q is not None and q.phase != 'out':
            return 0 if dict(q.cells).get(e['q']) == 'F' else None
        return None

    def on_node(s, ts, cn, q, ctx):
        if cn.kind == 'asg' and cn.n['a'].get('q') in s.cells and q.phase != 'out':
            c = ts.const(cn.n['b'], ctx.env)
            d = dict(q.cells)
            if c == 0 and cn.n['op'] == '=': pass
            else: d[cn.n['a']['q']] = '?'
            return q._replace(cells=tuple(sorted(d.items())))
        return None

    def clean(s, q): return q.phase == 'gated' or (not q.pending and not q.flag and not q.lost)

    def on_call(s, ts, fid, node, q, argv, ctx):
        if q.phase == 'gated':
            if fid in s.has: return [(q, 0), (q, 1)]
            if fid in s.validate or (fid in s.newrep and fid not in ts.relevant):
                q = q._replace(phase='pre', pending=1, flag=1)
            elif fid in s.flush or fid in s.clearq: return [(q, None)]
            elif fid not in ts.relevant: return [(q, ts.simple_ret(fid))]
        if q.phase == 'out': return [(q, None)] if fid not in s.has else [(q, 0), (q, 1)]
        if fid in s.flush: return [(q._replace(pending=0, flag=max(q.flag, q.pending)), None)]
        if fid in s.clear: return [(q._replace(pending=1, flag=1), None)]
        if fid in s.clearq: return [(q._replace(lost=True, pending=min(q.pending, 1)), None)]
        if fid in s.has:
            s.seen_gate.add((ctx.fid, node.get('l')))
            if q.flag == 2: return [(q, 1)]
            q0 = q
            if not q.pending:
                q0 = q._replace(flag=0)
                if not q.lost and q.val: q0 = q0._replace(phase='gated')
            return [(q, 1), (q0, 0)]
        if fid in s.print_fns: return [(q._replace(flag=max(q.flag, 2 if argv.get(0) in s.err else 1)), None)]
        if fid in s.queue_fns: return [(q._replace(pending=max(q.pending, 2 if argv.get(0) in s.err else 1)), None)]
        if fid in s.validate and fid not in ts.relevant:
            return [(q._replace(lost=False, pending=max(1, q.pending), val=True), None)]
        if fid not in ts.relevant:
            if fid in s.mayq: q = q._replace(pending=max(1, q.pending))
            if fid in s.mayp: q = q._replace(flag=max(1, q.flag))
            return [(q, ts.simple_ret(fid))]
        r = ts.summary(fid, q, tuple(sorted(argv.items())), ctx.stack)
        if fid in s.validate:
            r = [(q2._replace(lost=False, pending=max(1, q2.pending), val=True), ret) for q2, ret in r]
        return r

    def viol(s, ts, node, ctx, why):
        f = s.P.fn[ctx.fid]
        s.res.bad('%s/%s' % (f['name'], tail(node.get('name', 'open'))),
                  '%s: %s; reached by %s' % (s.P.where(ctx.fid, node), why, stack_str(s.P, ctx.stack)))

    def on_ext(s, ts, n, q, argv, ctx):
        nm = n.get('name', ''); tl = tail(nm)
        if q.phase == 'out': return None
        if nm == 'std::filesystem::exists':
            return [(q._replace(ex='yes'), 1), (q._replace(ex='no'), 0)]
        if tl == 'is_open' and q.created and n.get('cls', '') in STREAMS:
            return [(q, 1), (q._replace(created=False), 0)]
        if n.get('cls', '') in STREAMS or n.get('cls', '').startswith('std::basic_ostream'):
            if tl in ('write', 'put', 'operator<<') and 'obj' in n and n['obj'].get('k') == 'ref' and n['obj'].get('dk') == 'local' and n.get('cls') in STREAMS:
                s.viol(ts, n, ctx, 'writes to a file before the error gate')
        if not is_sink(n): return None
        s.sinks.add((ctx.fid, n.get('l'), nm))
        if is_stream_open(n):
            flags = None
            for i, a in enumerate(n['args']):
                if 'Openmode' in a.get('ty', '') or 'openmode' in a.get('ty', ''):
                    flags = ts.const(a, ctx.env)
            if flags is not None and not flags & (M_OUT | M_APP | M_TRUNC):
                return [(q, None)]       # read only
            if s.clean(q):
                return [(q._replace(phase='out'), None)]
            destr = flags is None or flags & M_TRUNC or (flags & M_OUT and not flags & (M_IN | M_APP))
            obj = n.get('obj')
            local = n['k'] == 'ctor' or (obj is not None and obj.get('k') == 'ref' and obj.get('dk') == 'local')
            if not local:
                s.viol(ts, n, ctx, 'opens an output stream for writing that outlives the check, before the error gate')
            elif destr:
                if q.ex == 'no': return [(q._replace(created=True), None)]
                s.viol(ts, n, ctx, 'creates or truncates a file that may already exist, before the error gate')
            elif flags & M_APP and not flags & M_IN:
                s.viol(ts, n, ctx, 'may create a file before the error gate')
            return [(q, None)]
        if s.clean(q): return [(q._replace(phase='out'), None)]
        if tl == 'remove' and q.created:
            return [(q._replace(created=False, ex=''), None)]
        if nm == 'fopen' and len(n['args']) > 1 and n['args'][1].get('k') == 'str' and n['args'][1]['v'] in ('r', 'rb', 'rt'): return [(q, None)]
        s.viol(ts, n, ctx, '%s before the error gate%s' % (nm, ' on a file the probe did not create' if tl == 'remove' else ''))
        return [(q, None)]

    def on_exit(s, ts, fid, q, ret, ctx):
        # `ex` is knowledge about a local path; a created probe file must be gone when the opener returns
        if q.phase == 'pre' and q.created:
            s.res.bad('%s/leftover' % s.P.fn[fid]['name'], '%s: a file created by the write-access probe is still there when the function returns; %s' % (s.P.where(fid), stack_str(s.P, ctx.stack)))
            return q._replace(created=False, ex='')
        if q.ex: return q._replace(ex='')
        return None


def reaching(P, targets, avoid=()):
    rev = {}
    for i in P.fn:
        for j in P.callees(i): rev.setdefault(j, set()).add(i)
    seen = set(targets); todo = list(targets)
    while todo:
        x = todo.pop()
        for y in rev.get(x, ()):
            if y not in seen and y not in avoid: seen.add(y); todo.append(y)
    return seen


def check(P, res, tier):
    E = CK.effects()
    root = P.one('runArmips')
    g = Gate(P, res)
    ts = Typestate(P, g, E)
    q0 = Q('pre', 1, 1, False, False, '', tuple(sorted((c, 'F') for c in g.cells)), False)
    out = ts.run(root, q0)
    res.need(len(g.sinks), 4, 'file_mutation_sites_reached')
    res.need(len(g.seen_gate), 1, 'error_gates_passed')
    res.stats['summaries'] = len(ts.memo); res.stats['states'] = ts.visited
    if not res.violations and not any(q.phase == 'out' for q, r in out):
        raise Broken('no successful run reaches the output phase in the model')
    for s_ in sorted(g.sinks): res.ob('site %s:%s %s' % (P.fn[s_[0]]['name'], s_[1], s_[2]))
    for k, m in res.violations: res.obligations.append((k, False))
    # nothing on the way to the run may touch files either
    pre = [i for i in P.fn if P.fn[i]['file'].startswith('Main/') and 'Tests' not in P.fn[i]['file']]
    for i in pre:
        for n in walk_fn(P.fn[i]):
            if n['k'] in ('call', 'ctor') and is_sink(n):
                res.bad('%s/direct' % P.fn[i]['name'], '%s mutates a file outside the gated run' % P.where(i, n))
    res.ob('front-end functions %d free of file mutation' % len(pre))
