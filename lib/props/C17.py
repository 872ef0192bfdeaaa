"""C17: folding an expression when it is parsed never changes what it means."""
import itertools
import check as CK
import terms as T
from absint import Interp, Loop
from effects import overlap, show
from props.C04 import absolute
from props import C16
from props.C11 import Values, Unknown, Trap, settle, ev, close, shown, TY

RULE = """abstract interpretation of the folding function on expression trees of every operator over constant, label, position and function operands, once as parsed in a taken block and once in a block that may not be taken, followed by evaluation at a later time: value and diagnostics must equal those of evaluating the unfolded tree at that time (labels, position and functions of internal state have another value by then), a tree reported as constant must not depend on the time, constant trees must fold, nothing is reported or read from files for operands that may not be evaluated; plus effect analysis of every built-in function: one that reads what layout writes may not be marked foldable, one that reads state only parsing maintains must be"""
ASSUMPTIONS = ['operands deeper in the tree fold like the operands of the analysed node (induction over the tree)', 'a file read while parsing has the same contents during layout']
LEVEL = 'other'

EPOCH = (('X', 'epoch'), ())
SUP = (('G', 'Logger::suppressLevel'), ())

BINARY = ['Add', 'Sub', 'Mult', 'Div', 'Mod', 'LeftShift', 'RightShift', 'Less', 'Greater', 'LessEqual', 'GreaterEqual', 'Equal', 'NotEqual', 'BitAnd', 'BitOr', 'LogAnd', 'LogOr', 'Xor']
UNARY = ['Neg', 'LogNot', 'BitNot', 'ToString']
# leaves: kind -> (operator type, payload)
FUN = {'safe': 2, 'cond': 1, 'unsafe': 0, 'bad': 2, 'one': 2, 'zero': 2, 'cone': 1, 'missing': None}


class Tree(Interp):
    def may_inline(s, fid): return len(s.active) < 60 and s.active.count(fid) < 6

    def s_rangefor(s, n):
        if 'init' in n: s.run(n['init'])
        r = s.lv(n['range'])
        if s.st is None: return
        k = s.size_of(s.load(r, None))
        if not isinstance(k, int) or k > 8: return super().s_rangefor(n)
        lp = Loop(); s.frames[-1].loops.append(lp)
        for i in range(k):
            if s.st is None: break
            s.bindvar(n['var'], (r[0], r[1] + (('i', i),)))
            s.run(n['b'])
            if lp.conts:
                s.st = s.joinmany([(x, None) for x in lp.conts] + [(s.st, None)])[0]; lp.conts = []
        s.frames[-1].loops.pop()
        s.st = s.joinmany([(x, None) for x in lp.breaks] + [(s.st, None)])[0]


def epoch(I): return I.load(EPOCH)


class World:
    def __init__(s, P, E, V):
        s.P, s.E, s.V = P, E, V
        def one(name):
            c = [i for i, f in P.fn.items() if f['name'] == name and f.get('body') is not None]
            return c[0] if len(c) == 1 else None
        s.ev = one('ExpressionInternal::evaluate'); s.fold = one('ExpressionInternal::simplify')
        sf = P.enums.get('ExpFuncSafety', {}).get('e', [])
        s.safety = {e['n']: e['v'] for e in sf}

    def hooks(s):
        V = s.V
        def report(lvl):
            def h(I, n, w):
                for a in n['args']: I.rv(a)
                if I.st is None: return 0
                a0 = I.rv(n['args'][0])
                sv = I.load(SUP); e = epoch(I)
                if not isinstance(sv, int): raise Unknown('suppression %s' % str(sv)[:200])
                k = 2 if a0 in s.errors() else 1
                cell = (('X', 'diag'), (e, 'sup' if sv > 0 else 'out'))
                old = I.load(cell)
                I.store(cell, k if not isinstance(old, int) or old < k else old)
                return 0
            return h
        def h_label(I, n, w):
            for a in n['args'][1:]: I.rv(a)
            a = n['args'][0]
            l = I.lv(a) if I.st is not None else None
            v = I.load((l[0], l[1] + ('_name',)), None) if l else None
            f = I.rv(n['args'][1]) if len(n['args']) > 1 else None; g = I.rv(n['args'][2]) if len(n['args']) > 2 else None
            return ('ptr', ('X', 'label', v, f, g), ())
        def h_value(I, n, w):
            l = I.obj_loc(n)
            return ('v', ('op', ('label', l[0][2:], epoch(I)), 'i'), (64, True))
        def h_pos(I, n, w): return ('v', ('op', ('pos', epoch(I)), 'i'), (64, True))
        def h_as(I, n, w):
            l = I.obj_loc(n)
            return ('LOC', (l[0], l[1] + ('value',))) if I.st is not None else 0
        def name_of(I, a):
            l = I.lv(a)
            if I.st is None: return None
            v = I.load((l[0], l[1] + ('_name',)), None)
            if isinstance(v, tuple) and v[0] == 'str': return v[1]
            raise Unknown('function name %s' % str(v)[:50])
        def h_find(I, n, w):
            nm = name_of(I, n['args'][0])
            return ('v', ('handle', nm), None) if I.st is not None else 0
        def handle(I, n):
            l = I.obj_loc(n)
            if l[1] and l[1][-1] == 'value': l = (l[0], l[1][:-1])
            def seek(x):
                if isinstance(x, tuple):
                    if len(x) == 2 and x[0] == 'handle' and isinstance(x[1], str): return x[1]
                    for y in x:
                        r = seek(y)
                        if r: return r
            r = seek((I.load(l, None) if I.st is not None else None, l))
            if r is None: raise Unknown('handle')
            return r
        def h_found(I, n, w):
            if 'optional' not in (n.get('cls') or ''): return NotImplemented
            return int(FUN[handle(I, n)] is not None)
        def h_safety(I, n, w):
            k = FUN[handle(I, n)]
            return {2: s.safety['Safe'], 1: s.safety['ConditionalUnsafe'], 0: s.safety['Unsafe']}[k]
        def h_exec(I, n, w):
            nm = handle(I, n)
            l = I.lv(n['args'][0])
            k = I.size_of(I.load(l, None))
            if not isinstance(k, int): raise Unknown('arguments')
            vals = []
            bad = False
            for i in range(k):
                c = I.load((l[0], l[1] + (('i', i),)), None)
                r = I.enter(s.ev, [], I.deref(c), None)
                fs = V.fields(r)
                if len(fs) != 1 or fs[0][0] != 1: raise Unknown('argument')
                ty, iv, fv, sv = fs[0][1]
                vals.append((ty, iv if ty == V.VT['Integer'] else fv if ty == V.VT['Float'] else sv))
                if ty == V.VT['Invalid']: bad = True
            e = epoch(I)
            if e == 0 and FUN[nm] == 1: I.store((('X', 'exec'), ()), 1)
            I.nobj += 1; t = (('T', I.nobj), ())
            if nm == 'bad' or bad:
                if nm == 'bad':
                    sv = I.load(SUP); cell = (('X', 'diag'), (e, 'sup' if sv > 0 else 'out'))
                    if not isinstance(sv, int): raise Unknown('suppression %s' % str(sv)[:200])
                    I.store(cell, 2)
                V.put(I, t, 'X', 0)
            elif nm in ('one', 'zero', 'cone'):
                V.put(I, t, 'I', 0)
                I.store((t[0], ('intValue',)), int(nm != 'zero')); I.store((t[0], ('ExpressionValue::(anon)', 'intValue')), int(nm != 'zero'))
            else: V.put(I, t, 'I', ('fun', nm, e if FUN[nm] == 0 else None, tuple(vals)))
            return I.load(t, None)
        def h_text(I, n, w):
            l = I.obj_loc(n)
            if I.st is None: return 0
            return ('v', ('op', ('text', s.describe(I, l)), 's'), None)
        hk = {'SymbolTable::getLabel': h_label, 'Label::getValue': h_value, 'Label::isDefined': lambda I, n, w: 1, 'Label::getName': lambda I, n, w: ('LOC', (('X', 'name'), ())), 'FileManager::getVirtualAddress': h_pos,
              'ExpressionInternal::valueAs': h_as, 'ExpressionInternal::toString': h_text, 'ExpressionFunctionHandler::find': h_find, 'ExpressionFunctionHandle::safety': h_safety, 'ExpressionFunctionHandle::execute': h_exec,
              'ExpressionFunctionHandler::instance': lambda I, n, w: ('LOC', (('X', 'handler'), ())),
              'ExpressionFunctionHandle::minParams': lambda I, n, w: 0, 'ExpressionFunctionHandle::maxParams': lambda I, n, w: 9, }
        for x in ('tfm::format', 'tinyformat::format'): hk[x] = lambda I, n, w: ('v', ('app', 'format', tuple(I.rv(a) for a in n['args'])), None)
        for x in ('std::optional::operator conversion', 'std::optional::has_value', 'std::optional::operator bool'): hk[x] = h_found
        for x in ('Logger::queueError', 'Logger::printError'): hk[x] = report(0)
        return hk

    def errors(s):
        return {e['v'] for q in s.P.enums for e in s.P.enums[q]['e'] if q.endswith('ErrorType') and e['n'] in ('Error', 'FatalError')}

    def describe(s, I, l):
        t = I.load((l[0], l[1] + ('type',)), None)
        k = I.size_of(I.load((l[0], l[1] + ('children',)), None))
        out = [t]
        for i in range(k if isinstance(k, int) else 0): out.append(s.describe(I, I.deref(I.load((l[0], l[1] + ('children', ('i', i))), None))))
        return tuple(out)

    def build(s, I, t, loc, ids):
        """Store an expression tree at a location."""
        OT = s.V.OT
        kind = t[0]
        def put(f, v): I.store((loc[0], loc[1] + f), v)
        put(('children',), ('v', ('empty', 'std::vector'), None))
        k = len(ids); ids.append(0)
        put(('fileNum',), ('v', ('file', k), (32, False))); put(('section',), ('v', ('section', k), (32, False)))
        if kind == 'int': put(('type',), OT['Integer']); put(('value',), t[1] if len(t) > 1 else ('v', ('op', ('int', k), 'i'), (64, True)))
        elif kind == 'flt': put(('type',), OT['Float']); put(('value',), ('flt', t[1]) if len(t) > 1 else ('v', ('op', ('flt', k), 'f'), 'f'))
        elif kind == 'str':
            put(('type',), OT['String']); I.store((loc[0], loc[1] + ('value', '_value')), ('v', ('op', ('str', k), 's'), None))
        elif kind == 'name':
            put(('type',), OT['Identifier']); I.store((loc[0], loc[1] + ('value', '_name')), ('str', 'name%d' % k))
        elif kind == 'pos': put(('type',), OT['MemoryPos'])
        elif kind == 'invalid': put(('type',), OT['Invalid'])
        else:
            if kind == 'call':
                put(('type',), OT['FunctionCall']); I.store((loc[0], loc[1] + ('value', '_name')), ('str', t[1])); kids = t[2:]
            else: put(('type',), OT[kind]); kids = t[1:]
            v = ('v', ('empty', 'std::vector'), None)
            for c in kids: v = ('v', ('mut', 'push_back', v, (0,)), None)
            put(('children',), v)
            for i, c in enumerate(kids):
                l = (('X', 'node%d' % len(ids)), ())
                I.store((loc[0], loc[1] + ('children', ('i', i))), ('ptr', l[0], ()))
                s.build(I, c, l, ids)

    def machine(s):
        I = Tree(s.P, s.E, s.hooks())
        I.unroll = 20
        I.store(SUP, 0)
        I.store((('X', 'exec'), ()), 0)
        for e in (0, 1):
            for k in ('sup', 'out'): I.store((('X', 'diag'), (e, k)), 0)
        return I

    def straight(s, t, e):
        """Evaluation of the unfolded tree at a time."""
        I = s.machine(); me = (('X', 'self'), ())
        I.dyn[me[0]] = 'ExpressionInternal'
        s.build(I, t, me, [])
        I.store(EPOCH, e)
        r = I.enter(s.ev, [], me, None)
        if I.st is None: raise Unknown('no result')
        return s.V.fields(r), I.load((('X', 'diag'), (e, 'out')))

    def folded(s, t, flag):
        I = s.machine(); me = (('X', 'self'), ())
        I.dyn[me[0]] = 'ExpressionInternal'
        s.build(I, t, me, [])
        I.store(EPOCH, 0)
        p = s.P.fn[s.fold]['params']
        ret = I.enter(s.fold, [(q, False, flag) for q in p], me, None)
        if I.st is None: raise Unknown('no result')
        d0 = I.load((('X', 'diag'), (0, 'out'))); ex = I.load((('X', 'exec'), ()))
        I.store(EPOCH, 1); I.store(SUP, 0)
        r = I.enter(s.ev, [], me, None)
        if I.st is None: raise Unknown('no result')
        return ret, d0, ex, s.V.fields(r), I.load((('X', 'diag'), (1, 'out')))


def atoms(t, out):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'op' and t[2] in ('i', 'f', 's'): out.add(t)
    if isinstance(t, (tuple, list)):
        for x in t: atoms(x, out)
    return out


VALS = {'i': [3, 0, 7, 1, -5, 12, 2, 100, 65, 33], 'f': [1.5, 0.0, -2.25, 8.0, 3.75], 's': ['ab', '', 'x', '7', 'zz', 'q']}


def valuations(ks):
    ks = sorted(ks, key=repr)
    for r in range(8):
        yield {k: VALS[k[2]][(i * (1 + r // 4) + r) % len(VALS[k[2]])] for i, k in enumerate(ks)}


def trees():
    I, F, S, N, PO = ('int',), ('flt',), ('str',), ('name',), ('pos',)
    def call(k, *a): return ('call', k) + a
    fS, fC, fU, fB, fM = call('safe'), call('cond'), call('unsafe'), call('bad'), call('missing')
    for t in (I, F, S, N, PO, fS, fC, fU, fB, fM): yield t
    for op in UNARY:
        for a in (I, F, S, N, PO, fS, fC, fU, ('Add', I, I), ('Add', I, N)): yield (op, a)
    for op in BINARY:
        for a, b in ((I, I), (I, F), (F, F), (S, S), (S, I), (N, I), (I, N), (N, N), (PO, I), (I, PO), (fU, I), (I, fU), (fS, I), (I, fC), (fC, I), (('Add', I, I), I), (I, ('Add', N, I)), (('Sub', I, I), ('Mult', I, I))): yield (op, a, ('int', 3) if op in ('Div', 'Mod') and b in (I, ('Mult', I, I)) else b)
    for op in ('Div', 'Mod'):
        for b in (0, 1, -1, 2): yield (op, I, ('int', b)); yield (op, F, ('int', b)); yield (op, N, ('int', b)); yield ('Add', (op, I, ('int', b)), I)
        yield (op, I, ('Sub', ('int', 1), ('int', 1)))
    for k in ('safe', 'cond', 'unsafe', 'bad', 'missing'):
        for a in (I, S, N, PO, ('Add', I, I), fS, fU, fC): yield call(k, a)
        yield call(k, I, N); yield call(k, N, I); yield call(k, I, I)
    conds = [('int', 0), ('int', 5), ('flt', 0.0), ('flt', 0.5), N, PO, call('one'), call('zero'), fU, call('cone'), ('Less', ('int', 1), ('int', 2)), ('Less', ('int', 2), ('int', 1)), ('Equal', N, I), ('LogNot', ('int', 3))]
    arms = [I, S, N, PO, fB, fC, fU, ('Div', I, ('int', 0)), ('Add', I, I), ('Add', N, I)]
    for c in conds:
        for a in arms:
            yield ('TertiaryIf', c, a, I)
            if a != I: yield ('TertiaryIf', c, I, a)
        yield ('TertiaryIf', c, N, N); yield ('TertiaryIf', c, call('safe', N), call('safe', I))
        for d in (('int', 0), ('int', 1), N): yield ('TertiaryIf', c, ('TertiaryIf', d, fB, I), I); yield ('TertiaryIf', c, I, ('TertiaryIf', d, N, I))
    for c in (('int', 0), ('int', 1), N): yield ('Add', ('TertiaryIf', c, I, N), I); yield call('safe', ('TertiaryIf', c, I, fB))


SPELL = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Mod': '%', 'LeftShift': '<<', 'RightShift': '>>', 'Less': '<', 'Greater': '>', 'LessEqual': '<=', 'GreaterEqual': '>=', 'Equal': '==', 'NotEqual': '!=', 'BitAnd': '&', 'BitOr': '|', 'LogAnd': '&&', 'LogOr': '||', 'Xor': '^', 'Neg': '-', 'LogNot': '!', 'BitNot': '~', 'ToString': 'text of '}
CALLS = {'safe': 'pure', 'cond': 'file', 'unsafe': 'state', 'bad': 'failing', 'one': 'one', 'zero': 'zero', 'cone': 'file', 'missing': 'unknown'}


def draw(t):
    k = t[0]
    if k in ('int', 'flt', 'str'): return str(t[1]) if len(t) > 1 else {'int': 'integer', 'flt': 'float', 'str': 'string'}[k]
    if k == 'name': return 'label'
    if k == 'pos': return 'position'
    if k == 'call': return '%s(%s)' % (CALLS[t[1]], ', '.join(map(draw, t[2:])))
    if k == 'TertiaryIf': return '(%s ? %s : %s)' % tuple(map(draw, t[1:]))
    if len(t) == 2: return '%s(%s)' % (SPELL[k], draw(t[1]))
    return '(%s %s %s)' % (draw(t[1]), SPELL[k], draw(t[2]))


def has(t, f): return f(t) or any(has(x, f) for x in t[1:] if isinstance(x, tuple))


def cases(P, E, V, res, und):
    W = World(P, E, V)
    if not W.ev or not W.fold: und.append('folding function not found'); return
    at = P.where(W.fold)
    n = pts = 0
    seen = set()
    for t in trees():
        if any(k not in V.OT for k in ([t[0]] if t[0][0].isupper() else [])): continue
        try:
            ref1, rd1 = W.straight(t, 1)
            ref0, rd0 = W.straight(t, 0)
        except (Unknown, RecursionError, KeyError) as x: und.append('%s: %s' % (draw(t), x)); continue
        timed = has(t, lambda x: x[0] in ('name', 'pos') or x[:2] == ('call', 'unsafe'))
        for flag in (0, 1):
            key = None
            sp = '%s in a block that %s' % (draw(t), 'may not be taken' if flag else 'is taken')
            try: ret, d0, ex, got, d1 = W.folded(t, flag)
            except (Unknown, RecursionError, KeyError) as x: und.append('%s: %s' % (sp, x)); continue
            n += 1
            ks = set()
            for x in (ref1, ref0, got, rd1, rd0, d0, d1, ret, ex): atoms(x, ks)
            u = None
            for env in valuations(ks):
                try:
                    g = lambda x: ev(x, env) if isinstance(x, tuple) else x
                    w = settle(V, ref1, env); dw = g(rd1)
                    try: h = settle(V, got, env)
                    except Trap as x: key, why = 'trap', str(x); break
                    pts += 1
                    D0, D1, R, EX = g(d0), g(d1), g(ret), g(ex)
                    if (h == 'X') != (w == 'X') or h != 'X' and (h[0] != w[0] or not close(h[1], w[1])): key, why = 'value', 'gives %s after folding, %s without' % (shown(h), shown(w)); break
                    if flag and D0: key, why = 'early', 'reports %s while folding, before it is known that it will be evaluated' % ('a warning', 'an error')[D0 - 1]; break
                    if flag and EX: key, why = 'exec', 'reads a file while folding, before it is known that it will be evaluated'; break
                    if max(D0, D1) < dw: key, why = 'lost', 'loses %s' % ('a warning', 'an error')[dw - 1]; break
                    if max(D0, D1) > dw: key, why = 'extra', 'reports %s that evaluating it does not' % ('a warning', 'an error')[max(D0, D1) - 1]; break
                    if EX and t[0] == 'TertiaryIf':
                        # a file function ran: only allowed where the tree evaluates it
                        if not ran(W, t, env): key, why = 'unchosen', 'reads a file for the operand that is not chosen'; break
                    w0 = settle(V, ref0, env)
                    if R and (w0 == 'X') != (w == 'X') or R and w != 'X' and (w0[0] != w[0] or not close(w0[1], w[1])): key, why = 'const', 'is taken for a constant although its value changes (%s, later %s)' % (shown(w0), shown(w)); break
                    if not R and not timed and not has(t, lambda x: x[0] == 'ToString' or x[:2] in (('call', 'bad'), ('call', 'missing'))) and not (flag and has(t, lambda x: x[0] == 'call' and FUN[x[1]] == 1)) and not (flag and has(t, lambda x: x[0] in ('Div', 'Mod'))) and w != 'X':
                        key, why = 'unfolded', 'is not recognised as a constant'; break
                except Trap: continue
                except (Unknown, OverflowError) as x: u = str(x) if str(x) != 'shift' else u      # shift counts outside 0..63 are not specified
            if key:
                if (key, t[0]) in seen: continue
                seen.add((key, t[0]))
                res.ob(sp, False, 'fold.%s.%s' % (key, t[0]), 'simplify (%s): %s %s' % (at, sp, why))
            elif u: und.append('%s: %s' % (sp, u))
            else: res.ob('%s: same value and reports after folding' % sp)
    res.stats['trees'] = n; res.stats['valuations'] = pts
    res.need(n, 300, 'expression trees folded')


def ran(W, t, env):
    """Whether evaluating the tree right away runs its file function."""
    I = W.machine(); me = (('X', 'self'), ())
    W.build(I, t, me, [])
    I.store(EPOCH, 0)
    I.enter(W.ev, [], me, None)
    x = I.load((('X', 'exec'), ()))
    return ev(x, env) if isinstance(x, tuple) else x


# ---------------------------------------------------------------- which functions may be folded
STATE = ('FileManager', 'AssemblerFile', 'Label', 'SymbolTable', 'Allocations', 'SymbolData', 'CAssemblerCommand', 'ElfFile', 'ElfSection', 'ElfSegment')


def safety(P, E, res, und):
    tab = C16.tables(P, E)
    sf = {e['n']: e['v'] for e in P.enums.get('ExpFuncSafety', {}).get('e', [])}
    if not {'Safe', 'ConditionalUnsafe', 'Unsafe'} <= set(sf): und.append('safety classes'); return
    state = set(STATE)
    for c in STATE: state |= P.subs.get(c, set())
    val = [i for i in P.over['CAssemblerCommand::Validate(const ValidateState &)'] if i in P.fn]
    par = [i for i in P.fn if P.fn[i]['name'] in ('Parser::parseFile', 'Parser::parse', 'Parser::parseString', 'Parser::parseTemplate')]
    def writes(roots):
        w = {}
        for i in P.reach(roots):
            for l in E.W.get(i, ()):
                a = absolute(P, i, l)
                if a is not None and counts(a): w.setdefault(a, i)
        return w
    def counts(a):
        if a[0][0] == 'H': return a[0][1] in state
        q = a[0][1]
        if q.startswith(('Logger::', 'std::', 'tFileInfo::')) or 'mutex' in P.vars.get(q, {}).get('ty', ''): return False
        if q == 'Global': return bool(a[1]) and not a[1][0].endswith(('FileInfo', 'fileList', 'memoryMode'))
        return True
    lay = writes(val); prs = writes(par)
    n = 0
    for name, r in sorted(tab.items()):
        if r['fn'] not in P.fn: continue
        n += 1
        rd = {absolute(P, r['fn'], l) for l in E.R.get(r['fn'], ())} - {None}
        rd = {a for a in rd if counts(a)}
        hit = [(a, w) for a in sorted(rd, key=str) for w in lay if overlap(P, a, w) and not (a[0][0] == 'G' and any(overlap(P, a, x) for x in prs))]     # state maintained in program order by both phases is the same in both
        at = '%s:%s' % (r['file'], r['line'])
        if hit and r['safety'] != sf['Unsafe']:
            a, w = hit[0]
            res.ob('safety', False, 'safety.%s' % name, '%s: %s() may be evaluated while parsing, but reads %s, which layout changes (%s)' % (at, name, show(a), P.where(lay[w])))
            continue
        # state that only parsing maintains has its value for this place only while this place is parsed
        ph = [a for a in sorted(rd, key=str) if any(overlap(P, a, w) for w in prs) and not any(overlap(P, a, w) for w in lay) and a[0][0] == 'G' and a[1] and a[0][1] != 'Global']
        if ph and not hit and r['safety'] == sf['Unsafe']:
            res.ob('safety', False, 'safety.late.%s' % name, '%s: %s() reads %s, which only parsing maintains, but is evaluated later, when it has the value of the end of the program' % (at, name, show(ph[0])))
            continue
        if ph and r['safety'] == sf['ConditionalUnsafe']:
            res.ob('safety', False, 'safety.late.%s' % name, '%s: %s() reads %s, which only parsing maintains, but is evaluated later in blocks that may not be taken' % (at, name, show(ph[0])))
            continue
        res.ob('%s(): %s' % (name, 'evaluated late (reads layout state)' if hit else 'independent of layout state' if r['safety'] != sf['Unsafe'] else 'evaluated late'))
    res.stats['functions_classified'] = n
    res.need(n, 20, 'functions classified')
    # functions defined by the program may use anything
    for fid, f in P.fn.items():
        if f['name'] == 'ExpressionFunctionHandler::addUserFunction' and f.get('body') is not None:
            cs = [x.get('cv') for x in C16.subs(f['body']) if isinstance(x, dict) and x.get('k') == 'ref' and P.ty(x.get('ty', '')).get('enum') == 'ExpFuncSafety']
            cs += [x.get('cv') for x in C16.subs(f['body']) if isinstance(x, dict) and x.get('k') == 'int' and P.ty(x.get('ty', '')).get('enum') == 'ExpFuncSafety']
            cs = [c for c in cs if c is not None]
            if cs and any(c != sf['Unsafe'] for c in cs): res.ob('user', False, 'safety.user', '%s: functions defined by the program may be evaluated while parsing, although their expression may depend on layout' % P.where(fid))
            elif cs: res.ob('functions defined by the program are evaluated late')
            else: und.append('safety of user functions')


# ---------------------------------------------------------------- how folding is used
def uses(P, E, res, und):
    # the block state handed to the expression parser
    for fid, f in P.fn.items():
        if f['name'] == 'Parser::parseExpression' and f.get('body') is not None:
            out = {}
            for t in (0, 1):
                for k in (0, 1):
                    got = []
                    def h_parse(I, n, w):
                        if n.get('cls'): return NotImplemented
                        vs = [I.rv(a) for a in n['args'][1:]]
                        if I.st is not None: got.append(vs[-1] if vs else None)
                        return ('v', ('exp',), None)
                    I = Interp(P, E, {'Parser::isInsideTrueBlock': lambda I, n, w: t, 'Parser::isInsideUnknownBlock': lambda I, n, w: k, 'parseExpression': h_parse, 'Parser::getTokenizer': lambda I, n, w: ('ptr', ('X', 'tok'), ())})
                    try: I.enter(fid, [], (('X', 'parser'), ()), None)
                    except RecursionError: pass
                    if len(got) == 1 and isinstance(got[0], int): out[(t, k)] = bool(got[0])
            for (t, k), v in sorted(out.items()):
                want = not t or bool(k)
                if v != want: res.ob('block', False, 'uses.block', '%s: an expression in %s block is folded like one in %s block' % (P.where(fid), ('an unknown' if k else 'a taken' if t else 'a skipped'), 'a skipped' if v else 'a taken')); break
            else:
                if len(out) == 4: res.ob('the state of the block is passed to folding')
                else: und.append('block state')
    # the constant flag of an expression
    for fid, f in P.fn.items():
        if f['name'] != 'Expression::Expression' or len(f['params']) != 2 or f.get('implicit'): continue
        ok = True
        for fl in (0, 1):
            for c in (0, 1):
                seen = []
                def h_fold(I, n, w):
                    vs = [I.rv(a) for a in n['args']]
                    if I.st is not None: seen.append(vs[0] if vs else None)
                    return c
                I = Interp(P, E, {'ExpressionInternal::simplify': h_fold})
                me = (('X', 'e'), ())
                try: I.enter(fid, [(f['params'][0], False, ('ptr', ('X', 'n'), ())), (f['params'][1], False, fl)], me, None)
                except RecursionError: ok = None; continue
                v = I.load((me[0], ('constExpression',)), None) if I.st is not None else None
                if len(seen) != 1 or not isinstance(v, int) or not isinstance(seen[0], int): ok = None; continue
                if bool(seen[0]) != bool(fl): res.ob('flag', False, 'uses.flag', '%s: folding is not told whether the block may not be taken' % P.where(fid)); ok = False; break
                if bool(v) != bool(c): res.ob('const', False, 'uses.const', '%s: an expression that %s folded is %s a constant' % (P.where(fid), 'was' if c else 'was not', 'not' if c else 'taken for')); ok = False; break
            if ok is False: break
        if ok: res.ob('the constant flag is the result of folding')
        elif ok is None: und.append('constant flag')


def check(P, res, tier):
    E = CK.effects()
    V = Values(P)
    und = []
    cases(P, E, V, res, und)
    safety(P, E, res, und)
    uses(P, E, res, und)
    if und: res.stats['undecided'] = sorted(set(und))[:30]; res.stats['undecided_count'] = len(und)
