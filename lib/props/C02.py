from collections import namedtuple
from front import Broken
from prog import tail, walk_fn, walk, strip
from typestate import Typestate, Spec, stack_str
from cfg import cfg, dominators
from props.C01 import reaching
import check as CK

RULE = """severity-to-exit-code propagation: (a) reporting with an error severity sets the failure flag on every unsuppressed path, warnings do exactly when errors-on-warning is set; (b) every queued report reaches that code when the queue is printed; (c) on every path of a run that returns success the flag was read as clear after the last report and no queued report was dropped or left unprinted; (d) a failed run gives a non-zero process exit code and a successful one zero; (e) suppression is balanced and the flag is only ever lowered at the start of a run
(typestate with branch correlation, constant-specialised summaries)"""
LEVEL = 'other'
ASSUMPTIONS = ['during output writing a report is queued (not printed) only where validation already queued the same report or the open failure was printed; the one such site that only output writing reaches is FileManager::write']

OUT_ONLY_QUEUE_OK = {'FileManager::write'}


class FlagSpec(Spec):
    """Value of the failure flag after a report, for a fixed severity."""
    def __init__(s, flag, consts): s.flag = flag; s.consts = consts
    def interesting(s, f): return False
    def interesting_node(s, n):
        return (n['k'] == 'asg' and n['a'].get('q') == s.flag) or (n['k'] == 'ref' and n.get('q') in ('Logger::errors', 'Logger::queue'))
    def mem_const(s, q, e):
        return s.consts.get(e.get('q'))
    def on_node(s, ts, cn, q, ctx):
        if cn.kind == 'asg' and cn.n['a'].get('q') == s.flag:
            c = ts.const(cn.n['b'], ctx.env)
            if cn.n['op'] == '=':
                return (1 if c == 1 else 0 if c == 0 else '?',) + q[1:]
            if cn.n['op'] == '|=':
                if c == 1: return (1,) + q[1:]
                if c == 0: return None
                return ('?' if q[0] != 1 else 1,) + q[1:]
            return ('?',) + q[1:]
        return None
    def on_ext(s, ts, n, q, argv, ctx):
        o = n.get('obj')
        if o is not None and tail(n.get('name', '')) in ('push_back', 'emplace_back'):
            if o.get('q') == 'Logger::errors': return [((q[0], 1, q[2]), None)]
            if o.get('q') == 'Logger::queue': return [((q[0], q[1], 1), None)]
        return None


F = namedtuple('F', 'phase pending flag lost val')


class FinalSpec(Spec):
    def __init__(s, P, res):
        s.P = P; s.res = res
        s.print_fns = set(P.find('Logger::printError')); s.queue_fns = set(P.find('Logger::queueError'))
        s.flush = set(P.find('Logger::printQueue')); s.clearq = set(P.find('Logger::clearQueue'))
        s.has = set(P.find('Logger::hasError')); s.clear = set(P.find('Logger::clear'))
        # closing a file only queues a warning when none is open, which its callers have just excluded
        src = set(i for i in P.fn if i not in s.queue_fns and any(c.get('name') == 'Logger::queueError' for c, t in P.calls(i)))
        src = set(i for i in src if not (P.fn[i]['name'] == 'FileManager::closeFile' and all(c['args'][0].get('cv') == 0 for c, t in P.calls(i) if c.get('name') == 'Logger::queueError')))
        s.mayq = reaching(P, src) | s.queue_fns; s.mayp = reaching(P, s.print_fns)
        s.validate = set(P.over['CAssemblerCommand::Validate(const ValidateState &)'])
        ev = {e['n']: e['v'] for q_, o in P.enums.items() if q_ == 'Logger::ErrorType' for e in o['e']}
        s.ev = ev
        s.err = {ev['Error'], ev['FatalError']}
        outroots = set()
        for m in ('Encode() const', 'writeTempData(TempData &) const', 'writeSymData(SymbolData &) const'):
            outroots |= set(i for i in P.over['CAssemblerCommand::' + m] if i in P.fn)
        s.outroots = set(outroots)
        for c in ('TempData', 'SymbolData', 'FileManager'):
            outroots |= set(i for i in P.fn if P.fn[i].get('cls') == c)
        s.outfns = P.reach(outroots)
        s.parse = set(i for i in P.fn if P.fn[i]['name'] in ('Parser::parseFile', 'Parser::parseString', 'Parser::parse'))
        psrc = set(i for i in P.fn if i not in s.print_fns and i not in s.queue_fns and any(c.get('name') in ('Logger::queueError', 'Logger::printError') for c, t in P.calls(i)))
        s.newrep = reaching(P, psrc - s.outfns, s.outfns)
        s.gates = set()

    def interesting(s, fid): return fid in s.flush or fid in s.has or fid in s.clearq or fid in s.clear

    def on_call(s, ts, fid, node, q, argv, ctx):
        if fid in s.clear:
            if q.val or q.pending == 2 or (q.phase != 'start'):
                s.res.bad('clear/%s' % s.P.fn[ctx.fid]['name'], '%s clears the reports after assembling has started' % s.P.where(ctx.fid, node))
            return [(q, None)]
        if fid in s.flush:
            return [(q._replace(pending=0, flag=max(q.flag, q.pending)), None)]
        if fid in s.clearq:
            if q.pending or q.val: return [(q._replace(lost=True, pending=min(q.pending, 1)), None)]
            return [(q, None)]
        if fid in s.has:
            s.gates.add((ctx.fid, node['l']))
            if q.flag == 2: return [(q, 1)]
            q0 = q._replace(flag=0)
            if not q.pending and not q.lost and q.val: q0 = q0._replace(phase='gated')
            return [(q, 1), (q0, 0)]
        if fid in s.print_fns: return [(q._replace(flag=max(q.flag, 2 if argv.get(0) in s.err else 1)), None)]
        if fid in s.queue_fns:
            if q.phase == 'gated': return [(q, None)]
            return [(q._replace(pending=max(q.pending, 2 if argv.get(0) in s.err else 1)), None)]
        v = fid in s.validate
        if fid in s.parse and q.phase == 'start': q = q._replace(phase='run')
        if q.phase == 'gated' and (v or (fid not in ts.relevant and fid in s.newrep)):
            q = q._replace(phase='run')
        if fid in ts.relevant:
            r = ts.summary(fid, q, tuple(sorted(argv.items())), ctx.stack)
        else:
            q2 = q
            if fid in s.mayq and q.phase != 'gated': q2 = q2._replace(pending=max(1, q.pending))
            if fid in s.mayp: q2 = q2._replace(flag=max(1, q.flag))
            r = [(q2, ts.simple_ret(fid))]
        if v: r = [(a._replace(lost=False, val=True, pending=max(1, a.pending)), b) for a, b in r]
        return r


class ExitSpec(Spec):
    def __init__(s, P): s.run = set(P.find('runArmips')); s.args = set(P.find('parseArguments'))
    def interesting(s, f): return f in s.run or f in s.args
    def on_call(s, ts, fid, node, q, argv, ctx):
        if fid in s.run: return [('ok', 1), ('fail', 0)]
        if fid in s.args: return [('args', 1), ('argfail', 0)]
        return None


class Balance(Spec):
    def __init__(s, P, res, up, down): s.P = P; s.res = res; s.up = up; s.down = down; s.sites = set()
    def interesting(s, f): return f in s.up or f in s.down
    def on_call(s, ts, fid, node, q, argv, ctx):
        if fid in s.up:
            s.sites.add((ctx.fid, node['l'])); return [(min(q + 1, 3), None)]
        if fid in s.down: return [(q - 1 if q > -3 else q, None)]
        if fid in ts.relevant:
            # suppression is balanced per function, so a callee is neutral; judged on its own
            return [(q, None)]
        return None


def check(P, res, tier):
    E = CK.effects()
    ev = {e['n']: e['v'] for q_, o in P.enums.items() if q_ == 'Logger::ErrorType' for e in o['e']}
    if not {'Error', 'FatalError', 'Warning', 'Notice'} <= set(ev): raise Broken('severity enumeration not found')
    flag = None
    for h in P.find('Logger::hasError'):
        for n in walk_fn(P.fn[h]):
            if n['k'] == 'return' and 'e' in n:
                x = strip(n['e'])
                if x['k'] == 'ref' and x.get('dk') == 'global': flag = x['q']
    if flag is None: raise Broken('the failure flag behind Logger::hasError was not found')
    # (a) severity -> flag
    basep = [i for i in P.find('Logger::printError') if not i.endswith('<>/3')]
    baseq = [i for i in P.find('Logger::queueError') if not i.endswith('<>/3')]
    pr = [i for i in basep if len(P.fn[i]['params']) == 2]; qu = [i for i in baseq if len(P.fn[i]['params']) == 2]
    if not pr or not qu: raise Broken('report functions not found')
    n = 0
    for fid in P.find('Logger::printError'):
        for sev, v in sorted(ev.items()):
            for eow in (0, 1):
                sp = FlagSpec(flag, {'Logger::suppressLevel': 0, 'Logger::errorOnWarning': eow})
                ts = Typestate(P, sp, E)
                outs = ts.run(fid, (0, 0, 0), ((0, v),))
                want = 1 if sev in ('Error', 'FatalError') or (sev == 'Warning' and eow) else 0
                n += 1
                got = set(q[0] for q, r in outs)
                res.ob('printError(%s), errors-on-warning=%d sets flag=%d (%s)' % (sev, eow, want, tail(fid)), got == {want}, 'flag/%s/%d' % (sev, eow),
                       '%s: reporting severity %s with errors-on-warning=%d leaves the failure flag at %s, expected %d' % (P.where(fid), sev, eow, sorted(map(str, got)), want))
                if not all(q[1] == 1 for q, r in outs):
                    res.bad('recorded/%s' % sev, '%s: a printed report of severity %s is not recorded in the error list on some path' % (P.where(fid), sev))
    for fid in P.find('Logger::queueError'):
        sp = FlagSpec(flag, {'Logger::suppressLevel': 0})
        for sev, v in sorted(ev.items()):
            ts = Typestate(P, sp, E)
            outs = ts.run(fid, (0, 0, 0), ((0, v),))
            n += 1
            res.ob('queueError(%s) always enqueues' % sev, bool(outs) and all(q[2] == 1 for q, r in outs), 'enqueue/%s' % sev, '%s: a queued report of severity %s is not stored on some path' % (P.where(fid), sev))
    # the stored severity is the reported one
    for fid in qu:
        p0 = P.fn[fid]['params'][0]['id']
        ok = False
        for x in walk_fn(P.fn[fid]):
            src = None
            if x['k'] == 'asg' and x['a'].get('k') == 'mem' and x['a']['q'].endswith('QueueEntry::type'): src = strip(x['b'])
            elif x['k'] in ('init',) and 'QueueEntry' in x.get('ty', '') and x['a']: src = strip(x['a'][0])
            elif x['k'] == 'call' and tail(x.get('name', '')) in ('emplace_back',) and x['args']: src = strip(x['args'][0])
            if src is not None:
                if src.get('k') == 'ref' and src.get('id') == p0: ok = True
                else:
                    res.bad('stored-severity', '%s: the stored severity is not the reported one' % P.where(fid, x))
        res.ob('stored severity is the reported severity', ok, 'stored-severity', '%s: the reported severity is not stored with the queued report' % P.where(fid))
    # the template overloads forward the severity
    for fid in [i for i in P.find('Logger::printError') + P.find('Logger::queueError') if i not in pr and i not in qu]:
        p0 = P.fn[fid]['params'][0]['id']
        for c, ts_ in P.calls(fid):
            if c.get('name') in ('Logger::printError', 'Logger::queueError'):
                a = strip(c['args'][0])
                res.ob('%s forwards its severity' % fid, a.get('id') == p0 and c['name'] == P.fn[fid]['name'], 'forward/%s' % P.fn[fid]['name'], '%s does not forward the severity it was given' % P.where(fid, c))
                n += 1
    res.need(n, 14, 'severity_cases')
    # (b) printing the queue visits every entry and applies its severity
    flagset = set(i for i in P.fn if any(x['k'] == 'asg' and x['a'].get('q') == flag and x['b'].get('cv') != 0 for x in walk_fn(P.fn[i])))
    setters = reaching(P, flagset)
    for fid in P.find('Logger::printQueue'):
        check_flush(P, res, fid, setters)
    # (c)
    root = P.one('runArmips')
    sp = FinalSpec(P, res)
    ts = Typestate(P, sp, E)
    outs = ts.run(root, F('start', 0, 0, False, False))
    good = [(q, r) for q, r in outs if r != 0]
    res.need(len(sp.gates), 2, 'flag_reads_on_run_paths')
    if not good: raise Broken('no path of the run returns success')
    for q, r in sorted(good, key=str):
        ok = q.flag == 0 and not q.lost and (q.pending == 0)
        why = 'the failure flag was not read after the last report' if q.flag else 'a queued report was discarded' if q.lost else 'queued reports were never printed'
        res.ob('success exit of runArmips in state %s' % (q,), ok, 'success/' + why.replace(' ', '-'), '%s can return success although %s (state %s, return %s)' % (P.where(root), why, q, r))
    bad = [q for q, r in outs if r == 0]
    res.stats['summaries'] = len(ts.memo); res.stats['states'] = ts.visited
    # output-phase-only queued reports are never printed
    pv = P.reach([i for i in sp.validate if i in P.fn] + list(sp.parse) + P.find('Allocations::validateOverlap'))
    ph = P.reach(sp.outroots)
    cnt = 0
    for i in sorted(ph - pv):
        for c, t in P.calls(i):
            if c.get('name') == 'Logger::queueError' and not P.fn[i]['name'].startswith('Logger::'):
                cnt += 1
                res.ob('queueError in %s' % P.fn[i]['name'], P.fn[i]['name'] in OUT_ONLY_QUEUE_OK, 'unflushed/%s' % P.fn[i]['name'],
                       '%s queues a report while output is written; the queue is not printed any more' % P.where(i, c))
    res.stats['functions_reached_by_output_phase'] = len(ph)
    # (d)
    mains = [i for i in P.fn if P.fn[i]['name'] == 'main']
    if not mains: raise Broken('main not found')
    for m in mains:
        ts = Typestate(P, ExitSpec(P), E)
        outs = ts.run(m, 'none')
        if not any(q == 'ok' for q, r in outs): raise Broken('main does not reach the run')
        for q, r in sorted(outs, key=str):
            ok = (q == 'ok' and r == 0) or (q in ('fail', 'argfail') and r not in (0, None))
            res.ob('main: after %s exit code %s' % (q, r), ok, 'exit/%s' % q, '%s: after the run %s the exit code is %s' % (P.where(m), {'ok': 'succeeded', 'fail': 'failed'}.get(q, q), r))
    # (e) suppression
    up = set(P.find('Logger::suppressErrors')); down = set(P.find('Logger::unsuppressErrors'))
    sp2 = Balance(P, res, up, down)
    k = 0
    for i in sorted(P.fn):
        if i in up or i in down: continue
        if any(c.get('fn') in up or c.get('fn') in down for c, t in P.calls(i)):
            k += 1
            ts = Typestate(P, sp2, E)
            outs = ts.run(i, 0)
            # RAII: constructor/destructor pairs are judged together
            cls = P.fn[i].get('cls')
            if P.fn[i].get('ctor') or P.fn[i].get('dtor'):
                continue
            res.ob('suppression balanced in %s' % P.fn[i]['name'], all(q == 0 for q, r in outs), 'suppress/%s' % P.fn[i]['name'],
                   '%s: error suppression is not balanced on every path (levels at exit: %s)' % (P.where(i), sorted(set(q for q, r in outs))))
    res.need(k, 1, 'suppression_users')
    # flag lowered only by Logger::clear
    for i in sorted(P.fn):
        for x in walk_fn(P.fn[i]):
            if x['k'] == 'asg' and x['a'].get('q') == flag:
                c = x['b'].get('cv')
                if c == 1: continue
                if c == 0 and P.fn[i]['name'] == 'Logger::clear': continue
                if x['op'] == '|=': continue
                # error = error || cond
                if any(y.get('q') == flag for y in walk(x['b'])) and any(y['k'] == 'bin' and y['op'] in ('||', '|') for y in walk(x['b'])): continue
                if i in flagset and P.fn[i]['name'] != 'Logger::clear' and c is None:
                    # judged by (a) already
                    continue
                res.bad('lowered/%s' % P.fn[i]['name'], '%s lowers the failure flag' % P.where(i, x))
    res.ob('failure flag only lowered by Logger::clear')


def check_flush(P, res, fid, setters):
    """Every entry of the queue is passed to the flag setter."""
    g = cfg(P, fid)
    loops = [x for x in walk_fn(P.fn[fid]) if x['k'] in ('for', 'while', 'do', 'rangefor')]
    calls = [(c, t) for c, t in P.calls(fid)]
    # descend into a helper or algorithm that does the loop
    if not loops:
        for c, t in calls:
            for x in t:
                if x in setters and x != fid and any(y['k'] in ('for', 'rangefor', 'while') for y in walk_fn(P.fn[x])):
                    return check_flush(P, res, x, setters)
        lam = [c for c, t in calls if c['k'] == 'lambda']
        feach = [c for c, t in calls if c.get('name') in ('std::for_each',)]
        if lam and feach and any(l['fn'] in setters for l in lam):
            res.ob('printQueue applies the flag setter to every entry (for_each)')
            return
        raise Broken('no loop over the queue found in %s' % fid)
    ok = False
    for lp in loops:
        full = False
        if lp['k'] == 'rangefor':
            full = any(x.get('q') == 'Logger::queue' for x in walk(lp['range']))
        elif lp['k'] in ('for', 'while'):
            full = full_range(lp, 'Logger::queue')
        if not any(x.get('q') == 'Logger::queue' for x in walk(lp)): continue
        # in the body: every path back to the head (and every way out) passes a setter call
        head = [x for x in g.nodes if x.kind == 'join' and x.n is lp]
        must = must_pass(P, g, lp, lambda c: any(t in setters for t in P.targets(c)))
        ok = True
        res.ob('printQueue loop covers the whole queue', full, 'flush/range', '%s: the loop printing queued reports does not cover every entry' % P.where(fid, lp))
        res.ob('printQueue applies each severity', must, 'flush/skip', '%s: some iteration over the queued reports does not update the failure flag' % P.where(fid, lp))
        # the severity passed belongs to the entry
        for c in walk(lp['b']):
            if c['k'] == 'call' and any(t in setters for t in P.targets(c)) and c['args']:
                a = c['args'][0]
                good = any(x.get('k') == 'mem' and x['q'].endswith('::type') for x in walk(a)) or any(x.get('k') == 'mem' and x['q'].endswith('::type') for x in walk(lp['b']))
                res.ob('printQueue passes the stored severity', good, 'flush/severity', '%s: the stored severity is not what updates the failure flag' % P.where(fid, c))
    if not ok: raise Broken('no loop over the report queue found')


def full_range(lp, cont):
    """for (i = 0; i < c.size(); i++) / iterator form over the given container."""
    txt = list(walk(lp.get('c') or {'k': 'null'}))
    okc = any(x['k'] == 'call' and tail(x.get('name', '')) in ('size', 'end', 'cend') and any(y.get('q') == cont for y in walk(x)) for x in txt) or any(x['k'] == 'call' and tail(x.get('name', '')) == 'empty' for x in txt)
    oki = True
    if lp['k'] == 'for':
        init = lp.get('init')
        vs = [v for v in walk(init)] if init else []
        st = [v for v in vs if v['k'] == 'var' and 'init' in v]
        oki = any(v['init'].get('cv') == 0 for v in st) or any(x['k'] == 'call' and tail(x.get('name', '')) in ('begin', 'cbegin') for v in st for x in walk(v['init']))
        inc = list(walk(lp.get('inc') or {'k': 'null'}))
        oki = oki and (any(x['k'] == 'un' and x['op'].endswith('++') for x in inc) or any(x['k'] == 'call' and x.get('op') == '++' for x in inc) or any(x['k'] == 'asg' and x['op'] == '+=' and x['b'].get('cv') == 1 for x in inc))
        top = lp.get('c')
        if top is not None and top['k'] == 'bin' and top['op'] in ('<', '!=', '>'):
            # bare size(), no offset
            for side in (top['a'], top['b']):
                x = side
                while x['k'] == 'cast': x = x['e']
                if x['k'] == 'bin': return False
    return okc and oki


def must_pass(P, g, lp, pred):
    """Every path from the loop body entry that leaves the body passes a call satisfying pred."""
    body_nodes = set(id(x) for x in walk(lp['b']))
    # find body entry: the successor through the T edge / the join created for the body
    joins = [x for x in g.nodes if x.kind == 'join' and x.n is lp]
    # builder order: out, head, body, cont
    if len(joins) < 4: return False
    out, head, body, cont = joins[:4]
    seen = set(); st = [body]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.kind == 'call' and pred(x.n): continue
        if x is cont or x is out or x is g.exit: return False
        for y, l in x.succ: st.append(y)
    return True
