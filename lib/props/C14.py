"""C14: text that is not assembled has no effect."""
import check as CK
from absint import Interp
from effects import overlap, show
from parsefx import Hyp, Under
from prog import tail, walk_fn
from props import C16

RULE = """interprocedural mod/ref analysis of parsing under the hypothesis that the innermost condition is known to be false (and that a macro is only being searched for labels), pruned by branch conditions that the hypothesis decides: everything such text may write must be unobservable bookkeeping or be given back; abstract interpretation of the conditional directive over all outcomes of its conditions, forms of the chain and states of the surrounding block shows which blocks are parsed in which state, that what the discarded ones changed is restored and what assembled ones changed is kept, and that the command returned is that of the chosen block; the same for the trial parse of a macro; no file is opened or queried and no macro instantiated for discarded text"""
ASSUMPTIONS = ['evaluation of expressions writes nothing but diagnostics and label placeholders (C17 covers what folding does)', 'settings made inside blocks whose condition is only known during layout are not judged']
LEVEL = 'other'

CUTS = ('Expression::', 'ExpressionInternal::')
UPDATE = 'ExpressionFunctionHandler::updateArchitecture'
TRUE, UNK, INIT = 'Parser::ConditionInfo::inTrueBlock', 'Parser::ConditionInfo::inUnknownBlock', 'Parser::initializingMacro'
# names that are only diagnostics, places in the text, or counters of unique names
PLAIN = ('Global.FileInfo', 'Global.fileList', 'Global.symbolTable.generatedLabels', 'Global.symbolTable.uniqueCount')
TEXT = ('Tokenizer', 'TextFile', 'ExpressionInternal', 'Expression', 'CAssemblerCommand', 'CommandSequence', 'Token', 'StringList')
QUERY = ('exists', 'file_size', 'status', 'is_directory', 'is_regular_file', 'last_write_time', 'directory_iterator', 'remove', 'rename', 'create_directory', 'create_directories', 'copy', 'copy_file', 'resize_file', 'canonical', 'weakly_canonical', 'equivalent')
GROW = ('push_back', 'emplace_back', 'clear', 'reserve')
STREAMS = ('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_fstream', 'std::basic_filebuf')


def cut(name): return name.startswith(CUTS) or name == UPDATE


def dotted(loc): return show(loc)


class Where:
    def __init__(s, P, E):
        s.P, s.E = P, E
        s.text = set(TEXT)
        for c in TEXT: s.text |= P.subs.get(c, set())
        s.read = set()          # fields used otherwise than by appending to them or emptying them
        for f in P.fn.values():
            skip = set()
            for n in walk_fn(f):
                o = n.get('obj') if n.get('k') == 'call' else None
                if o is not None and n.get('fn') not in P.fn and tail(n.get('name', '')) in GROW: skip.add(id(o))
                if n.get('k') == 'mem' and id(n) not in skip: s.read.add(n.get('q'))

    def bookkeeping(s, loc, fid):
        P = s.P
        r, p = loc
        if r[0] in ('P', 'C', 'L', 'X'): return True
        if r[0] == 'T':
            # the parser's own place in the text; tables of definitions are not
            f = p[0] if p else ''
            t = next((x for c in P.rec.values() for x in c.get('fields', ()) if x.get('q', x.get('n')) == f), None)
            ty = t and t.get('ty') or ''
            return not (P.ty(ty).get('rec') or '').endswith(('map', 'multimap'))
        if r[0] == 'H': return r[1] in s.text or r[1].startswith('std::')
        q = r[1]
        if q.startswith('std::') or 'mutex' in P.vars.get(q, {}).get('ty', '') or q.split('@')[0].endswith('Mutex'): return True
        if '(' in q: return '::handler' not in q                       # a function's own static
        if q.startswith('Logger::'): return tail(q) not in ('errorOnWarning', 'silent')
        if q.startswith(('tFileInfo::', 'UserFunctionDepth::')): return True
        d = dotted(loc)
        return d.startswith(PLAIN)

    def observable(s, loc):
        return not loc[1] or loc[0][0] == 'G' or loc[1][-1] in s.read


class Stop(Exception): pass


# ---------------------------------------------------------------- state to be given back
CUR = (('G', 'Architecture::currentArchitecture'), ())
FUNCS = (('X', 'functions of the architecture'), ())


def cells(P, U):
    """Memory cells of the interpreter for the locations of U."""
    out = {}
    for loc in U:
        r, p = loc
        p = tuple(tail(x) for x in p)
        if r[0] == 'G':
            if '(' in r[1]: continue
            out[(r, p)] = dotted(loc)
        elif r[0] == 'H':
            for q, v in P.vars.items():
                c = P.rec_of(v.get('ty', ''))
                if c and '(' not in q and 'ptr' not in P.ty(v['ty']) and (P.is_a(c, r[1]) or P.is_a(r[1], c)):
                    fs = {f['n'] for x in bases(P, c) for f in P.rec.get(x, {}).get('fields', ())}
                    if not p or p[0] in fs: out[(('G', q), p)] = '%s.%s' % (q, '.'.join(p))
    return out


def bases(P, c):
    out = [c]
    for b in P.rec.get(c, {}).get('bases', ()): out += bases(P, b if isinstance(b, str) else b.get('rec', ''))
    return out


class World:
    """Abstract machine for the functions that parse blocks: tokens, condition stack and the state of blocks."""
    def __init__(s, P, E, cl, V):
        s.P, s.E, s.cl, s.V = P, E, cl, V
        s.TT = {e['n']: e['v'] for e in P.enums['TokenType']['e']}
        s.CR = {e['n']: e['v'] for e in P.enums['ConditionalResult']['e']}

    def mark(s, I, who):
        for c in s.cl:
            I.store(c, ('ptr', ('X', 'arch', who), ()) if c == CUR else ('v', ('set', who, c), None))
        I.store(FUNCS, ('ptr', ('X', 'arch', who), ()))

    def marks(s, I):
        """Who set each cell last."""
        out = {}
        for c, nm in list(s.cl.items()) + [(FUNCS, 'functions of the architecture')]:
            v = I.load(c, None)
            if isinstance(v, tuple) and v[0] == 'ptr' and v[1][:2] == ('X', 'arch'): out[nm] = v[1][2]
            elif isinstance(v, tuple) and v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] == 'set' and v[1][2] == c: out[nm] = v[1][1]
            else: out[nm] = None
        return out

    def get(s, I, k): return I.load((('X', k), ()), None)[1][1]

    def put(s, I, k, v): I.store((('X', k), ()), ('v', ('const', v), None))

    def machine(s, script, conds, outer, init=0):
        """script: tokens in order; conds: outcome of each condition in order; outer: (known true or unknown, unknown)."""
        P = s.P
        def token(I, ahead, eat):
            k = s.get(I, 'tok')
            if k + ahead >= len(script): raise Stop('tokens')
            if eat: s.put(I, 'tok', k + ahead + 1)
            return ('LOC', (('X', 'token', k + ahead), ()))
        def h_next(I, n, w): return token(I, 0, True) if I.st is not None else 0
        def h_peek(I, n, w):
            a = I.rv(n['args'][0]) if n.get('args') and n['args'][0].get('k') != 'default' else 0
            return token(I, a if isinstance(a, int) else 0, False) if I.st is not None else 0
        def h_eat(I, n, w):
            if I.st is not None: token(I, 0, True)
            return 0
        def h_ident(I, n, w):
            l = I.obj_loc(n)
            return ('LOC', (l[0], l[1] + ('id',))) if I.st is not None else 0
        def h_parseident(I, n, w):
            l = I.lv(n['args'][0])
            if I.st is not None: I.store((l[0], l[1] + ('_name',)), ('str', 'NAME'))
            return 1
        def h_exp(I, n, w):
            if I.st is None: return 0
            k = s.get(I, 'cond'); s.put(I, 'cond', k + 1)
            s.put(I, 'exprs', s.get(I, 'exprs') + (s.get(I, 'stack')[-1],))
            I.nobj += 1; t = (('T', I.nobj), ())
            for f in P.rec['Expression']['fields']:
                b = P.ty(f['ty'])
                I.store((t[0], (f['n'],)), int(conds[k] in 'TF') if b.get('bool') else ('ptr', ('X', 'expression', k), ()))
            return I.load(t, None)
        def which(I, n):
            l = I.obj_loc(n)
            for f in P.rec['Expression']['fields']:
                if not P.ty(f['ty']).get('bool'):
                    v = I.load((l[0], l[1] + (f['n'],)), None)
                    if isinstance(v, tuple) and v[0] == 'ptr' and v[1][:2] == ('X', 'expression'): return v[1][2]
            raise Stop('expression')
        def h_eval(I, n, w):
            if I.st is None: return 0
            k = which(I, n)
            I.nobj += 1; t = (('T', I.nobj), ())
            s.V.put(I, t, 'I', 0)
            for p in ((), ('ExpressionValue::(anon)',)): I.store((t[0], p + ('intValue',)), {'T': 5, 'F': 0}.get(conds[k], ('v', ('op', 'unknown', 'i'), (64, True))))
            return I.load(t, None)
        def h_evalint(I, n, w):
            l = I.lv(n['args'][0])
            if I.st is None: return 0
            I.store(l, {'T': 5, 'F': 0}.get(conds[which(I, n)], ('v', ('op', 'unknown', 'i'), (64, True)))); return 1
        def h_push(I, n, w):
            v = I.rv(n['args'][0])
            if I.st is None: return 0
            st = s.get(I, 'stack'); t, u = st[-1]
            if not isinstance(v, int): raise Stop('result')
            s.put(I, 'stack', st + ((int(t and v != s.CR['False']), int(u or v == s.CR['Unknown'])),))
            return 0
        def h_pop(I, n, w):
            if I.st is None: return 0
            st = s.get(I, 'stack')
            if not st: raise Stop('pop')
            s.put(I, 'stack', st[:-1])
            return 0
        def top(i): return lambda I, n, w: s.get(I, 'stack')[-1][i] if I.st is not None else 0
        def h_block(I, n, w):
            if I.st is None: return 0
            b = s.get(I, 'blocks'); k = len(b)
            ini = I.load((('X', 'parser'), (s.ini,)), None)
            s.put(I, 'blocks', b + ((k, s.get(I, 'tok'), s.get(I, 'stack')[-1], ini),))
            s.mark(I, k)
            return ('ptr', ('X', 'block', k), ())
        def h_err(I, n, w):
            if I.st is not None: s.put(I, 'err', 1)
            return 0
        def h_upd(I, n, w):
            if I.st is not None: I.store(FUNCS, I.load(CUR, None))
            return 0
        def nop(r): return lambda I, n, w: r
        def h_eq(pol):
            def h(I, n, w):
                vs = []
                for o in ([n['obj']] if n.get('obj') is not None else []) + n['args']:
                    l = None
                    if P.ty(o.get('ty', '')).get('rec') == 'Identifier' or o.get('k') == 'call':
                        l = I.lv(o)
                        v = I.load((l[0], l[1] + ('_name',)), None)
                    else: v = I.rv(o)
                    x = text(v)
                    if x is None: return NotImplemented
                    vs.append(x)
                if len(vs) != 2: return NotImplemented
                return int((vs[0] == vs[1]) == pol)
            return h
        hk = {'Parser::nextToken': h_next, 'Parser::peekToken': h_peek, 'Parser::eatToken': h_eat, 'Tokenizer::nextToken': h_next, 'Tokenizer::peekToken': h_peek, 'Tokenizer::eatToken': h_eat,
              'Token::identifierValue': h_ident, 'Parser::parseIdentifier': h_parseident, 'Parser::parseExpression': h_exp, 'Expression::evaluate': h_eval, 'Expression::evaluateInteger': h_evalint,
              'Parser::pushConditionalResult': h_push, 'Parser::popConditionalResult': h_pop, 'Parser::isInsideTrueBlock': top(0), 'Parser::isInsideUnknownBlock': top(1), 'Parser::parseCommandSequence': h_block,
              'Parser::printError': h_err, 'Logger::printError': h_err, 'Logger::queueError': h_err, 'Parser::updateFileInfo': nop(0), UPDATE: h_upd,
              'Identifier::operator==': h_eq(True), 'Identifier::operator!=': h_eq(False), 'operator==': h_eq(True), 'operator!=': h_eq(False), 'SymbolTable::getLabel': lambda I, n, w: ('ptr', ('X', 'label'), ())}
        class Chain(Interp):
            def may_inline(s2, fid): return len(s2.active) < 40 and s2.active.count(fid) < 5
        I = Chain(P, s.E, hk)
        I.unroll = 30
        for i, (ty, tx) in enumerate(script):
            I.store((('X', 'token', i), ('type',)), s.TT[ty])
            I.store((('X', 'token', i), ('id', '_name')), ('str', tx or ''))
        s.put(I, 'tok', 0); s.put(I, 'cond', 0); s.put(I, 'stack', (outer,)); s.put(I, 'blocks', ()); s.put(I, 'err', 0); s.put(I, 'exprs', ())
        s.ini = next(f['n'] for f in P.rec['Parser']['fields'] if f['q'] == INIT)
        I.store((('X', 'parser'), (s.ini,)), init)
        s.mark(I, 'before')
        return I


def text(v):
    if isinstance(v, tuple) and v[0] == 'str': return v[1]
    if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'S' and (not v[2] or v[2][0] == ('i', 0)): return v[1][1]
    if isinstance(v, tuple) and v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] == 'app' and v[1][1] in ('std::basic_string_view', 'std::basic_string'):
        x = v[1][2]
        return text(x[0] if isinstance(x, tuple) and x and isinstance(x[0], tuple) else x)
    return None


# ---------------------------------------------------------------- chains of conditions
def chains():
    forms = [('.if',), ('.if', '.else'), ('.if', '.elseif'), ('.if', '.elseif', '.else'), ('.if', '.elseif', '.elseif', '.else')]
    for f in forms:
        k = sum(1 for x in f if x != '.else')
        alts = [('.if', '.ifdef', '.ifndef')] + [('.elseif', '.elseifdef', '.elseifndef')] * (k - 1)
        def rec(i, heads, conds):
            if i == k: yield heads + (['.else'] if f[-1] == '.else' else []), conds; return
            for h in (alts[i] if k < 3 else alts[i][:1]):
                for c in ('TFU' if h in ('.if', '.elseif') else 'U'):
                    yield from rec(i + 1, heads + [h], conds + [c])
        yield from rec(0, [], [])


def spoken(heads, conds):
    w = {'T': 'known true', 'F': 'known false', 'U': 'unknown'}
    out = []
    for i, h in enumerate(heads): out.append(h + ('' if h == '.else' else ' (%s)' % w[conds[i]] if h in ('.if', '.elseif') else ''))
    return ' '.join(out) + ' .endif'


FLAG = {'.if': 'IF', '.ifdef': 'IFDEF', '.ifndef': 'IFNDEF', '.elseif': 'IF', '.elseifdef': 'IFDEF', '.elseifndef': 'IFNDEF'}
OUTER = {(1, 0): 'text that is assembled', (1, 1): 'a block with unknown condition', (0, 0): 'a block that is not assembled', (0, 1): 'a block that is not assembled inside of one with unknown condition'}


def conditional(P, E, M, W, res, und, wit):
    fid = P.one('parseDirectiveConditional') if 'parseDirectiveConditional' in P.by_name else None
    if fid is None: und.append('conditional directive'); return
    at = P.where(fid)
    ps = P.fn[fid]['params']
    fl = {'.if': 1, '.ifdef': 2, '.ifndef': 3}
    CT = {e['n']: e['v'] for e in P.enums.get('ConditionType', {}).get('e', [])}
    n = 0
    for heads, conds in chains():
        script = []
        for i, h in enumerate(heads):
            if i: script.append(('Identifier', h))
            if h != '.else': script.append(('Separator', ''))
        script += [('Identifier', '.endif'), ('Separator', '')]
        for outer in OUTER:
            I = M.machine(script, [c for h, c in zip(heads, conds) if h in ('.if', '.elseif')], outer)
            sp = '%s in %s' % (spoken(heads, conds), OUTER[outer])
            try: r = I.enter(fid, [(ps[0], True, ('ptr', ('X', 'parser'), ())), (ps[1], False, fl[heads[0]])], None, None)
            except (Stop, RecursionError, KeyError, TypeError, IndexError) as x: 
                if str(x) == 'pop': res.ob(sp, False, 'chain.pop', '%s: %s: the state of the surrounding block is popped' % (at, sp)); continue
                und.append('%s: %s %s' % (sp, type(x).__name__, x)); continue
            if I.st is None: und.append('%s: no result' % sp); continue
            try: blocks, stack, tok, err, exprs = (M.get(I, k) for k in ('blocks', 'stack', 'tok', 'err', 'exprs'))
            except TypeError: und.append('%s: paths differ' % sp); continue
            n += 1
            # expected states
            t, u = outer; want = []; wexp = []
            for h, c in zip(heads, conds + [None]):
                if h == '.else': want.append((t, u)); continue
                if h in ('.if', '.elseif'): wexp.append((t, u))
                want.append((int(t and c != 'F'), int(u or c == 'U')))
                t, u = int(t and c != 'T'), int(u or c == 'U')
            def bad(key, why): res.ob(sp, False, 'chain.' + key, '%s: %s: %s' % (at, sp, why))
            if err: bad('error', 'is reported as an error'); continue
            if len(stack) != 1 or stack[0] != outer: bad('balance', 'the state of the surrounding block is not restored (%s states left)' % len(stack)); continue
            if tok != len(script) - 1: bad('tokens', '%d of %d tokens are consumed' % (tok, len(script) - 1)); continue
            got = [b[2] for b in blocks]
            if len(got) != len(want): bad('blocks', '%d blocks are parsed' % len(got)); continue
            k = next((i for i in range(len(got)) if got[i][0] != want[i][0] or want[i][0] and got[i][1] != want[i][1]), None)
            if k is not None:
                d = lambda x: 'not assembled' if not x[0] else 'of unknown condition' if x[1] else 'assembled'
                bad('state', 'the block after %s is parsed as %s, but it is %s' % (heads[k], d(got[k]), d(want[k]))); continue
            k = next((i for i in range(len(exprs)) if i < len(wexp) and (bool(exprs[i][0] and not exprs[i][1]) != bool(wexp[i][0] and not wexp[i][1]))), None)
            if k is not None: bad('cond', 'the condition of its %s part is folded as if %s' % (['first', 'second', 'third', 'last'][min(k, 3)], 'it were certain to be evaluated' if exprs[k][0] and not exprs[k][1] else 'it may not be evaluated')); continue
            # what was changed by discarded blocks
            last = 'before'; sure = True
            for i, w in enumerate(want):
                if w[0]: last = i; sure = not w[1]
            marks = M.marks(I)
            lost = [(nm, who) for nm, who in sorted(marks.items()) if who != last]
            if sure and lost:
                nm, who = lost[0]
                if who is None: und.append('%s: %s' % (sp, nm)); continue
                if isinstance(who, int) and not want[who][0]:
                    for nm, who in lost:
                        if isinstance(who, int) and not want[who][0]: bad('leak.' + nm, '%s changed in the block after %s, which is not assembled, keeps its value%s' % (nm, heads[who], wit(nm)))
                else: bad('undo.' + nm, 'what the block after %s, which is assembled, sets for the text after it is undone (%s)' % (heads[last] if last != 'before' else '?', nm))
                continue
            # the command
            if r == 0: bad('result', 'gives no command'); continue
            if outer[0]:
                why = wrong(P, I, r, heads, conds, 0, 0, CT)
                if why is None: und.append('%s: result %s' % (sp, str(r)[:80])); continue
                if why: bad('command', why); continue
            res.ob('%s: blocks, state and command' % sp)
    res.stats['chains'] = n
    res.need(n, 60, 'chains of conditions interpreted')


def wrong(P, I, r, heads, conds, i, e, CT):
    """What is wrong about the command of a chain (from its i-th part on); '' if nothing, None if unknown."""
    if i == len(heads):
        if r == 0: return ''
        if isinstance(r, tuple) and r[0] == 'ptr':
            if r[1][0] == 'X': return 'a discarded block is assembled'
            c = I.dyn.get(r[1])
            return '' if c and c != 'CDirectiveConditional' else 'another condition is evaluated'
        return None
    if not (isinstance(r, tuple) and r[0] == 'ptr'):
        return 'the block after %s is lost' % heads[i] if r == 0 else None
    if heads[i] == '.else': return '' if r[1] == ('X', 'block', i) else 'the block after .else is not the one assembled'
    c = conds[i]
    e2 = e + (heads[i] in ('.if', '.elseif'))
    if c == 'T': return '' if r[1] == ('X', 'block', i) else 'the block after %s (known true) is not the one assembled' % heads[i]
    if c == 'F': return wrong(P, I, r, heads, conds, i + 1, e2, CT)
    if r[1][0] == 'X': return 'the condition of %s is not evaluated' % heads[i]
    cls = I.dyn.get(r[1])
    if cls is None: return None
    if cls != 'CDirectiveConditional': return 'the condition of %s is not evaluated' % heads[i]
    g = lambda f: I.load((r[1], (f,)), None)
    names = {f['n'] for f in P.rec[cls]['fields']}
    if not {'ifBlock', 'elseBlock', 'type'} <= names: return None
    if g('type') != CT.get(FLAG[heads[i]]): return '%s is evaluated as another kind of condition' % heads[i]
    if g('ifBlock') != ('ptr', ('X', 'block', i), ()): return 'the block after %s is not the one assembled when its condition is true' % heads[i]
    if heads[i] in ('.if', '.elseif'):
        fe = [f['n'] for f in P.rec['Expression']['fields'] if not P.ty(f['ty']).get('bool')]
        xs = [f['n'] for f in P.rec[cls]['fields'] if P.ty(f['ty']).get('rec') == 'Expression']
        if fe and xs and I.load((r[1], (xs[0], fe[0])), None) != ('ptr', ('X', 'expression', e), ()): return 'the condition of %s is not the one evaluated' % heads[i]
    w = wrong(P, I, g('elseBlock'), heads, conds, i + 1, e2, CT)
    return w


# ---------------------------------------------------------------- the condition stack
def stack(P, E, M, res, und):
    fs = {k: P.one('Parser::' + k) if 'Parser::' + k in P.by_name else None for k in ('pushConditionalResult', 'isInsideTrueBlock', 'isInsideUnknownBlock')}
    if None in fs.values(): und.append('condition stack'); return
    fld = [f['n'] for f in P.rec['Parser']['fields'] if 'ConditionInfo' in f['ty']]
    if len(fld) != 1: und.append('condition stack'); return
    me = (('X', 'parser'), ())
    top = (('X', 'top'), ())
    hk = {'std::vector::back': lambda I, n, w: ('LOC', top) if 'ConditionInfo' in n.get('ty', '') + n['obj'].get('ty', '') else NotImplemented}
    tf, uf = tail(TRUE), tail(UNK)
    ok = True
    for t in (0, 1):
        for u in (0, 1):
            I = Interp(P, E, hk)
            I.store((top[0], (tf,)), t); I.store((top[0], (uf,)), u)
            for q, w in (('isInsideTrueBlock', t), ('isInsideUnknownBlock', u)):
                r = I.enter(fs[q], [], me, None)
                if not isinstance(r, int): und.append(q); ok = False
                elif bool(r) != bool(w): res.ob(q, False, 'stack.' + q, '%s: %s() is %s in %s' % (P.where(fs[q]), q, bool(r), OUTER.get((t, u)))); ok = False
            for nm, c in M.CR.items():
                I = Interp(P, E, hk)
                I.store((top[0], (tf,)), t); I.store((top[0], (uf,)), u)
                p = P.fn[fs['pushConditionalResult']]['params'][0]
                I.enter(fs['pushConditionalResult'], [(p, False, c)], me, None)
                v = I.load((me[0], (fld[0],)), None) if I.st is not None else None
                x = pushed(v)
                if x is None or not all(isinstance(x.get(k), int) for k in (tf, uf)): und.append('pushed state %s' % str(v)[:100]); ok = False; continue
                w = (int(t and nm != 'False'), int(u or nm == 'Unknown'))
                if bool(x[tf]) != bool(w[0]) or w[0] and bool(x[uf]) != bool(w[1]):
                    res.ob('push', False, 'stack.push', '%s: a block whose condition is %s in %s is taken for one that is %s' % (P.where(fs['pushConditionalResult']), {'True': 'known true', 'False': 'known false'}.get(nm, 'unknown'), OUTER.get((t, u)), 'assembled' if x[tf] and not x[uf] else 'of unknown condition' if x[tf] else 'not assembled')); ok = False
    if ok: res.ob('the condition stack combines the conditions of nested blocks')


def pushed(v):
    if isinstance(v, tuple):
        if v[0] == 'agg' and isinstance(v[1], tuple): v = v[1]
        if v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] == 'mut' and v[1][1] in ('push_back', 'emplace_back') and v[1][3]:
            x = v[1][3][0]
            if isinstance(x, tuple) and x[0] == 'agg': return {p[-1]: y for p, y in x[2]}
    return None


# ---------------------------------------------------------------- discarded commands
def sequence(P, E, M, res, und):
    fid = P.one('Parser::parseCommandSequence') if 'Parser::parseCommandSequence' in P.by_name else None
    if fid is None: und.append('command sequence'); return
    script = [('Identifier', 'a'), ('Separator', ''), ('Identifier', 'b'), ('Identifier', 'c')]
    done = 0
    for outer in OUTER:
        I = M.machine(script + [('Separator', '')], [], outer)
        def h_cmd(I, n, w):
            if I.st is None: return 0
            k = M.get(I, 'tok'); M.put(I, 'tok', k + 1)
            return ('ptr', ('X', 'cmd', k), ())
        def h_add(I, n, w):
            v = I.rv(n['args'][0])
            if I.st is not None: M.put(I, 'added', M.get(I, 'added') + (v[1][2] if isinstance(v, tuple) and v[0] == 'ptr' and v[1][:2] == ('X', 'cmd') else None,))
            return 0
        I.hooks = dict(I.hooks)
        for k in ('Parser::parseCommandSequence', 'Identifier::operator==', 'operator=='): I.hooks.pop(k, None)
        I.hooks.update({'Parser::atEnd': lambda I, n, w: int(M.get(I, 'tok') >= len(script)) if I.st is not None else 0, 'Parser::parseCommand': h_cmd, 'CommandSequence::addCommand': h_add,
                        'Parser::checkEquLabel': lambda I, n, w: 0, 'Parser::checkMacroDefinition': lambda I, n, w: 0, 'Parser::checkExpFuncDefinition': lambda I, n, w: 0, 'Identifier::startsWith': lambda I, n, w: 0, 'isPartOfList': lambda I, n, w: 0})
        M.put(I, 'added', ())
        ps = P.fn[fid]['params']
        try:
            I.enter(fid, [(ps[0], False, 0), (ps[1], False, ('v', ('empty', 'std::initializer_list'), None))], (('X', 'parser'), ()), None)
            got = M.get(I, 'added')
        except (Stop, RecursionError, KeyError, TypeError, IndexError) as x: und.append('command sequence: %s %s' % (type(x).__name__, x)); continue
        want = (0, 2, 3) if outer[0] else ()
        if got != want: res.ob('sequence', False, 'sequence', '%s: %d of 3 commands of %s are kept' % (P.where(fid), len(got), OUTER[outer])); continue
        done += 1
    if done == len(OUTER): res.ob('commands of discarded text are dropped, all others kept in order')


# ---------------------------------------------------------------- the trial parse of a macro
def trial(P, E, M, res, und, wit):
    fid = P.one('Parser::parseMacroCall') if 'Parser::parseMacroCall' in P.by_name else None
    if fid is None: und.append('macro call'); return
    at = P.where(fid)
    n = 0
    for outer in OUTER:
        for ini in (0, 1):
            for count in (0, 3):
                I = M.machine([('Identifier', 'm'), ('Separator', ''), ('Identifier', 'x')], [], outer, ini)
                mac = (('X', 'macro'), ())
                def h_find(I, n, w):
                    if not (n.get('cls') or '').endswith('map'): return NotImplemented
                    return ('v', ('it', 'macro'), None)
                def h_end(I, n, w):
                    if not (n.get('cls') or '').endswith('map'): return NotImplemented
                    return ('v', ('it', 'end'), None)
                def h_deref(I, n, w): return ('ptr', ('X', 'entry'), ())
                def h_itereq(pol):
                    def h(I, n, w):
                        xs = ([n['obj']] if n.get('obj') is not None else []) + n['args']
                        if not all('iterator' in (P.ty(x.get('ty', '')).get('rec') or '').lower() for x in xs): return old[pol](I, n, w)
                        vs = [I.rv(x) for x in xs]
                        return int((vs[0] == vs[1]) == pol)
                    return h
                old = {True: I.hooks['operator=='], False: I.hooks['operator!=']}
                def h_parse(I, n, w):
                    if I.st is None: return 0
                    ini = I.load((('X', 'parser'), (M.ini,)), None)
                    ps = M.get(I, 'parses')
                    M.put(I, 'parses', ps + ((ini, M.get(I, 'sup'), tuple(sorted(set(map(str, M.marks(I).values()))))),))
                    M.mark(I, len(ps))
                    return ('ptr', ('X', 'block', len(ps)), ())
                def h_sup(d):
                    def h(I, n, w):
                        if I.st is not None: M.put(I, 'sup', M.get(I, 'sup') + d)
                        return 0
                    return h
                I.hooks = dict(I.hooks)
                I.hooks.update({'Parser::parse': h_parse, 'Logger::suppressErrors': h_sup(1), 'Logger::unsuppressErrors': h_sup(-1), 'std::map::find': h_find, 'std::map::end': h_end, 'std::unordered_map::find': h_find, 'std::unordered_map::end': h_end,
                                'std::operator==': h_itereq(True), 'std::operator!=': h_itereq(False), 'std::_Rb_tree_iterator::operator->': h_deref, 'std::_Rb_tree_iterator::operator*': h_deref, 'TokenStreamTokenizer::init': lambda I, n, w: 0, 'Tokenizer::registerReplacement': lambda I, n, w: 0})
                M.put(I, 'parses', ()); M.put(I, 'sup', 0)
                e = (('X', 'entry'), ('second',))
                for f in P.rec['ParserMacro']['fields']:
                    v = count if f['n'] == 'counter' else ('v', ('empty', P.ty(f['ty']).get('rec')), None)
                    I.store((e[0], e[1] + (f['n'],)), v)
                try:
                    r = I.enter(fid, [], (('X', 'parser'), ()), None)
                    if I.st is None: raise Stop('no result')
                    ps, sup, err = M.get(I, 'parses'), M.get(I, 'sup'), M.get(I, 'err')
                    left = I.load((('X', 'parser'), (M.ini,)), None)
                except (Stop, RecursionError, KeyError, TypeError, IndexError) as x: und.append('macro call: %s %s' % (type(x).__name__, x)); continue
                n += 1
                sp = 'a macro instantiated %s in %s%s' % ('for the first time' if not count else 'again', OUTER[outer], ' while the labels of another are collected' if ini else '')
                def bad(key, why): res.ob(sp, False, 'trial.' + key, '%s: %s: %s' % (at, sp, why))
                if err or r == 0: bad('error', 'is reported as an error'); continue
                if sup: bad('suppress', 'error messages stay suppressed'); continue
                if left != ini: bad('flag', 'the text after it is taken for a trial parse'); continue
                if not outer[0] or ini:
                    if ps: bad('instantiated', 'its text is parsed')
                    else: res.ob('%s: nothing is parsed' % sp)
                    continue
                if not ps or ps[-1][0] != 0 or ps[-1][1] != 0 or r != ('ptr', ('X', 'block', len(ps) - 1), ()): bad('text', 'the commands of its text are not assembled'); continue
                trials = [p for p in ps if p[0]]
                if len(ps) - len(trials) != 1: bad('twice', 'its text is assembled %d times' % (len(ps) - len(trials))); continue
                if any(not p[1] for p in trials): bad('report', 'errors of the trial parse are reported'); continue
                marks = M.marks(I)
                k = [nm for nm, who in marks.items() if who != len(ps) - 1]
                if k: bad('undo', 'what its text sets for the text after it is undone (%s)' % k[0]); continue
                if ps[-1][2] != ('before',):
                    I2 = marks
                    bad('leak', 'its text is parsed with settings left over from the parse that collects its labels%s' % '')
                    continue
                res.ob('%s: trial parse has no effect' % sp)
    res.stats['macro_calls'] = n
    if n < 16: und.append('macro calls')


# ---------------------------------------------------------------- driver
def check(P, res, tier):
    from props.C11 import Values
    E = CK.effects()
    und = []
    root = P.one('Parser::parseCommandSequence')
    W = Where(P, E)
    req = {}; wits = {}
    builtin = {r['fn'] for r in C16.tables(P, E).values()}
    for fields, what in (({TRUE: 0}, 'text that is known not to be assembled'), ({INIT: 1}, 'the text of a macro that is only searched for labels')):
        U = Under(P, fields, cut)
        n = 0
        for l in sorted(U.W[root], key=str):
            n += 1
            if W.bookkeeping(l, root) or not W.observable(l): res.ob('%s may change %s: bookkeeping' % (what, show(l))); continue
            cs = cells(P, [l])
            if cs:
                for c, nm in cs.items(): req.setdefault(c, nm); wits.setdefault(nm, (what, U.witness(root, l)))
                res.ob('%s may change %s: has to be restored' % (what, show(l)))
                continue
            res.ob(what, False, 'effect.%s' % show(l), '%s may change %s: %s' % (what, show(l), U.witness(root, l)))
        res.stats['locations_%s' % ('untaken' if TRUE in fields else 'trial')] = n
        seen, ext = U.reach(root)
        res.stats['functions_%s' % ('untaken' if TRUE in fields else 'trial')] = len(seen)
        k = 0
        for f, n in ext:
            if f in builtin: continue
            nm = n.get('name') or ''
            rec = P.ty(n.get('ty', '')).get('rec') if n['k'] == 'ctor' else n.get('cls')
            k += 1
            opens = n['k'] == 'ctor' and rec in STREAMS and any(a.get('k') != 'default' for a in n['args']) and n.get('cp') not in ('copy', 'move') or tail(nm) == 'open' and (rec or '').startswith('std::basic_') or nm.startswith('std::filesystem::') and tail(nm) in QUERY and '::path::' not in nm
            if not opens: continue
            path = [P.fn[f]['name']]; x = f
            while seen.get(x) is not None: x = seen[x]; path.append(P.fn[x]['name'])
            res.ob(what, False, 'file.%s' % P.fn[f]['name'], '%s may access files (%s at %s:%s): %s' % (what, nm or rec, P.fn[f]['file'], n.get('l'), ' <- '.join(path[:12])))
        res.ob('%s: none of %d library calls opens or queries a file' % (what, k))
        res.need(len(seen), 100, 'functions_' + what.split()[-1])
    M = World(P, E, {c: n for c, n in req.items()}, Values(P))
    def wit(nm): return ' (%s)' % wits[nm][1] if nm in wits else ''
    conditional(P, E, M, W, res, und, wit)
    stack(P, E, M, res, und)
    sequence(P, E, M, res, und)
    trial(P, E, M, res, und, wit)
    if und: res.stats['undecided'] = sorted(set(und))[:30]; res.stats['undecided_count'] = len(und)
