"""Instruction pipelines: one opcode row, parsed, laid out and written by abstract interpretation.

The program's own parsing, checking and writing code is interpreted for a table that holds exactly one
row; operands are unknowns.  Paths that report an error end there; what is left is the accepted case.
The result is the sequence of written words as terms over the operands, and the conditions under which
an error was reported."""
import json, os
from front import Broken, VERIF
from prog import strip, tail, walk
import terms as T
from absint import Interp, State
from machine import emit, const_of

ERRORS = (1, 2)     # error and fatal error


def atom(name, w=32, sg=True): return ('v', name, (w, sg))


class Pipe:
    """One interpretation run with the hooks common to all architectures."""
    def __init__(s, P, E, name, budget=None):
        s.P = P; s.E = E; s.name = name
        s.regdiff = set(); s.dom = {}; s.nop = 0; s.ops = []; s.kills = []; s.words = []; s.ntok = 0
        h = dict(HOOKS)
        s.I = I = Interp(P, E, h)
        I.pipe = s
        s.stream = list(name); s.anon = 0; s.var = {}
        s.tokty = {e['n']: e['v'] for e in P.enums.get('TokenType', {}).get('e', ())}
        s.setpos(0)
        I.store((('G', 'g_fileManager'), ()), ('ptr', ('X', 'fm'), ()))

    def op(s, kind, extra=(), w=32, sg=True, lo=None, hi=None):
        """A new operand."""
        a = ('v', ('op', s.nop), (w, sg)); s.nop += 1
        if lo is not None: s.I.st.rng[a] = (lo, hi)
        s.dom[a] = (lo, hi)
        s.ops.append([kind, extra, a])
        emit(s.I, 'syn', kind, extra, a)
        return a

    # the token position is part of the state, so that it follows the path
    def pos(s):
        v = s.I.load((('X', 'tokpos'), ()), None)
        return v if isinstance(v, int) else 99
    def setpos(s, k): s.I.store((('X', 'tokpos'), ()), k)
    def adv(s, k): s.setpos(s.pos() + k)

    def valnames(s):
        """Paths of the integer in an expression value."""
        return [('ExpressionValue::(anon)', 'intValue')]

    def kill(s, why):
        I = s.I
        if I.st is not None: s.kills.append((why, I.st.pc))
        I.st = None


def kill(why):
    def h(I, n, want):
        I.pipe.kill(why); return 0
    return h


def err(I, n, want):
    sev = I.rv(n['args'][0])
    if sev in ERRORS:
        s = next((x['v'] for a in n['args'][1:] for x in walk(a) if x.get('k') == 'str'), '?')
        I.pipe.kill('error: ' + s)
    return 0


def lastarg(I, n, k):
    return I.lv(n['args'][k])


def tok(I, k):
    """Location of the k-th token; what is known about it is in the pipe's stream."""
    p = I.pipe
    root = ('X', 'tok%d' % k)
    t = p.stream[k] if k < len(p.stream) else None
    if t is not None:
        ty = t[0]
        if isinstance(ty, str): ty = p.tokty.get(ty)
        if ty is not None: I.st.mem[(root, ('type',))] = ty
    return ('LOC', (root, ()))


def toktext(I, root):
    """Text of the identifier token, if known."""
    p = I.pipe
    if root[0] == 'X' and isinstance(root[1], str) and root[1].startswith(('tok', 'ident')):
        k = int(root[1].lstrip('tokiden'))
        if k < len(p.stream) and p.stream[k] is not None and len(p.stream[k]) > 1: return p.stream[k][1]
    return None


def h_peek(I, n, want):
    k = 0
    if n['args'] and n['args'][0].get('k') != 'defarg': k = I.rv(n['args'][0])
    if I.st is None: return 0
    if not isinstance(k, int):
        I.pipe.anon += 1
        return ('LOC', (('X', 'anytok%d' % I.pipe.anon), ()))
    return tok(I, I.pipe.pos() + k)


def h_next(I, n, want):
    k = I.pipe.pos(); I.pipe.adv(1)
    return tok(I, k)


def h_eat(I, n, want):
    k = I.rv(n['args'][0]) if n['args'] else 1
    if I.st is not None: I.pipe.adv(k if isinstance(k, int) else 1)
    return 0


def h_match(I, n, want):
    t = I.rv(n['args'][0]); o = I.rv(n['args'][1]) if len(n['args']) > 1 and n['args'][1].get('k') != 'defarg' else 0
    if I.st is None: return 0
    p = I.pipe; k = p.pos()
    if k < len(p.stream) and p.stream[k] is not None:
        if p.tokty.get(p.stream[k][0]) != t: return 1 if o else 0
    if not isinstance(o, int): o = 0
    emit(I, 'syn', 'opt' if o else 'tok', (t,), None)
    p.adv(1)
    return 1


def h_ident(I, n, want):
    l = I.obj_loc(n)
    if l[0][0] == 'X' and isinstance(l[0][1], str) and l[0][1].startswith('tok'): return ('LOC', (('X', 'ident' + l[0][1][3:]), ()))
    return ('LOC', (('X', 'ident99'), ()))


def h_string(I, n, want):
    l = I.obj_loc(n)
    t = toktext(I, l[0])
    if t is None: return NotImplemented
    loc = (('X', 'text:' + t), ())
    I.st.mem[loc] = ('str', t)
    return ('LOC', loc)


def h_pos(I, n, want): return ('v', ('pos', I.pipe.pos()), (32, True))


def h_setpos(I, n, want):
    v = I.rv(n['args'][0])
    while isinstance(v, tuple) and v[0] == 'agg': v = v[1]
    if I.st is not None and isinstance(v, tuple) and v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] == 'pos': I.pipe.setpos(v[1][1])
    return 0


def h_identeq(I, n, want):
    """identifier == "literal": only the mnemonic is known."""
    vals = []
    for a in ([n['obj']] if n.get('obj') is not None else []) + list(n['args']):
        l = I.lv(a)
        tx = toktext(I, l[0])
        vals.append(('str', tx) if tx is not None else I.load(l, None) if l[0][0] != 'S' else ('str', l[0][1]))
        if vals[-1] and isinstance(vals[-1], tuple) and vals[-1][0] == 'ptr' and vals[-1][1][0] == 'S': vals[-1] = ('str', vals[-1][1][1])
    if all(isinstance(v, tuple) and v[0] == 'str' for v in vals) and len(vals) == 2:
        r = int(vals[0][1] == vals[1][1])
        return r if n.get('op') != '!=' else 1 - r
    return NotImplemented


def h_regtable(I, n, want):
    """A register of a table: its number is anything the table holds."""
    p = I.pipe
    ti = next(i for i, a in enumerate(n['args']) if 'Descriptor' in str(I.P.ty(a.get('ty', '')).get('ptr', '')) or 'Descriptor' in a.get('ty', ''))
    tab = I.rv(n['args'][ti]); cnt = I.rv(n['args'][ti + 1]) if ti + 1 < len(n['args']) else None
    if not (isinstance(tab, tuple) and tab[0] == 'ptr'): return NotImplemented
    rows = table(I, tab, cnt if isinstance(cnt, int) else None)
    if not rows: return NotImplemented
    if p.var.get('noreg'): return 0
    k = p.pos()
    if k < len(p.stream) and p.stream[k] is not None and p.stream[k][0] != 'Identifier': return 0
    di = next(i for i, a in enumerate(n['args']) if 'RegisterValue' in str(I.P.ty(a.get('ty', '')).get('rec', '')))
    d = I.lv(n['args'][di])
    nums = [r['num'] for r in rows]
    cls = regclass(rows)
    p.regdiff |= set(regdiff(rows))
    a = p.op('reg', (cls,), lo=min(nums), hi=max(nums))
    I.store((d[0], d[1] + ('num',)), a)
    p.adv(1)
    return 1


_regs = None


def regrefs():
    global _regs
    if _regs is None:
        p = os.path.join(VERIF, 'ref', 'regs.json')
        _regs = json.load(open(p)) if os.path.exists(p) else {}
    return _regs


def regclass(rows):
    """Identity of a register table by its contents: the reference table it shares most names with."""
    names = set(r['name'] for r in rows)
    best = max(sorted(regrefs().items()), key=lambda kv: (len(names & set(kv[1])) * 2 - len(set(kv[1])) - len(names)), default=None)
    if best is None or len(names & set(best[1])) * 2 < len(best[1]): return min(names)
    return best[0]


def regdiff(rows):
    """Names of the reference table that are missing or have another number: ((class, name, number wanted, number found), ...)."""
    ref = regrefs().get(regclass(rows))
    if not ref: return ()
    got = {}
    for r in rows: got.setdefault(r['name'], r['num'])
    return tuple((regclass(rows), n, v, got.get(n)) for n, v in sorted(ref.items()) if got.get(n) != v)


def table(I, ptr, count):
    """Rows of a constant table: [{field: value}]."""
    root, path = ptr[1], ptr[2]
    out = []
    base = path[:-1] if path and isinstance(path[-1], tuple) else path
    i = 0
    while count is None or i < count:
        nm = I.load((root, base + (('i', i), 'name')), None)
        num = I.load((root, base + (('i', i), 'num')), None)
        if isinstance(nm, tuple) and nm[0] == 'ptr' and nm[1][0] == 'S': nm = nm[1][1]
        elif isinstance(nm, tuple) and nm[0] == 'str': nm = nm[1]
        else: break
        if not isinstance(num, int): break
        out.append({'name': nm, 'num': num}); i += 1
        if i > 300: break
    return out


def exprfield(P):
    """The member of Expression that holds the syntax tree."""
    for f in P.rec.get('Expression', {}).get('fields', ()):
        if P.ty(f['ty']).get('rec', '').startswith('std::shared_ptr'): return f['n']
    return 'expression'


def set_expr(I, loc, a):
    """Make an expression object denote an unknown integer."""
    I.store((loc[0], loc[1] + (exprfield(I.P),)), ('ptr', ('X', ('expr', a)), ()))


def h_imm(I, n, want):
    d = I.lv(n['args'][1])
    if I.st is None: return 0
    set_expr(I, d, I.pipe.op('imm', (), 64, True))
    I.pipe.adv(1)
    return 1


def h_evaluate(I, n, want):
    """Evaluating an operand's expression gives the operand."""
    l = I.obj_loc(n)
    if not (l[0][0] == 'X' and isinstance(l[0][1], tuple) and l[0][1][0] == 'expr'): return NotImplemented
    a = l[0][1][1]
    ty = next(e['v'] for e in I.P.enums['ExpressionValueType']['e'] if e['n'] == 'Integer')
    r = I.temp(('v', ('exprvalue', a), None))
    I.store((r[0], r[1] + ('type',)), ty)
    for nm in I.pipe.valnames(): I.store((r[0], r[1] + nm), a)
    return ('LOC', r)


def h_write(w):
    def h(I, n, want):
        v = I.rv(n['args'][0])
        emit(I, 'word', w, v)
        return ('v', ('ok', I.nobj), 'b')
    return h


def h_adv(I, n, want):
    v = I.rv(n['args'][0]); emit(I, 'adv', v); return 1


def h_addr(I, n, want): return ('v', 'pc', (64, True))


def const(v):
    def h(I, n, want):
        for a in n['args']:
            if I.st is not None: I.lv(a)
        return v
    return h


def leaf(kind, lo, hi, fld=True, arg=1, sizearg=None, extra=None):
    """A parser of one operand: gives an unknown in a range."""
    def h(I, n, want):
        d = I.lv(n['args'][arg])
        ex = ()
        if sizearg is not None and len(n['args']) > sizearg: ex = (I.rv(n['args'][sizearg]),)
        if I.st is None: return 0
        if isinstance(ex[0] if ex else 0, int) and ex and ex[0] < 0: return 0
        a = I.pipe.op(kind, ex, lo=lo, hi=hi)
        I.pipe.adv(1)
        I.store((d[0], d[1] + (('num',) if fld else ())), a)
        if extra: extra(I, d, a)
        return 1
    return h


def vfputype(I, d, a):
    t = ('v', ('optype', a[1][1]), (32, True))
    I.store((d[0], d[1] + ('type',)), t)
    I.pipe.ops[-1].append(t)


def text_at(v):
    """The concrete characters a pointer or string value denotes from there on."""
    if isinstance(v, tuple) and v[0] == 'str': return v[1]
    if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'S' and len(v[2]) == 1 and isinstance(v[2][0], tuple) and isinstance(v[2][0][1], int): return v[1][1][v[2][0][1]:]
    return None


def h_strfn(I, n, want):
    """strlen, strcmp, strncmp, memcmp on known characters."""
    vs = [I.rv(a) for a in n['args']]
    if I.st is None: return 0
    nm = tail(n['name'])
    ts = [text_at(v) for v in vs]
    if ts[0] is None: return NotImplemented
    if nm == 'strlen': return len(ts[0])
    if ts[1] is None: return NotImplemented
    a, b = ts[0] + '\0', ts[1] + '\0'
    if nm in ('memcmp', 'strncmp'):
        if not isinstance(vs[2], int): return NotImplemented
        if nm == 'memcmp' and vs[2] > min(len(a), len(b)):
            # reading past the shorter text stops mattering at the first difference
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), None)
            if k is None: return NotImplemented
        a, b = a[:vs[2]], b[:vs[2]]
    return 0 if a == b else -1 if a < b else 1


def h_streq(I, n, want):
    """Comparison of strings whose characters are known."""
    vs = [I.rv(a) for a in ([n['obj']] if n.get('obj') is not None else []) + list(n['args'])]
    if I.st is None: return 0
    ts = [text_at(v) for v in vs]
    if len(ts) != 2 or None in ts: return NotImplemented
    r = int(ts[0] == ts[1])
    return r if 'operator!=' not in n['name'] else 1 - r


def h_strm(I, n, want):
    """back, front, pop_back of a string whose characters are known."""
    l = I.obj_loc(n)
    if I.st is None: return 0
    v = I.load(l, None); t = text_at(v)
    if t is None or not t: return NotImplemented
    nm = tail(n['name'])
    if nm == 'pop_back': I.store(l, ('str', t[:-1])); return 0
    return ('LOC', I.temp(ord(t[-1] if nm == 'back' else t[0])))


def h_constexpr(I, n, want):
    v = I.rv(n['args'][0])
    if I.st is None: return 0
    l = I.temp(('v', ('constexpr',), None))
    set_expr(I, l, v)
    return ('LOC', l)


HOOKS = {
    'std::operator==': h_streq, 'std::operator!=': h_streq,
    'std::basic_string::back': h_strm, 'std::basic_string::front': h_strm, 'std::basic_string::pop_back': h_strm,
    'createConstExpression': h_constexpr,
    'strlen': h_strfn, 'strcmp': h_strfn, 'strncmp': h_strfn, 'memcmp': h_strfn, 'std::strlen': h_strfn, 'std::strcmp': h_strfn, 'std::memcmp': h_strfn,
    'Logger::queueError': err,
    'Logger::printError': err,
    'Parser::printError': kill('parse error'),
    'Parser::peekToken': h_peek, 'Parser::nextToken': h_next,
    'Parser::eatToken': h_eat, 'Parser::eatTokens': h_eat,
    'Parser::matchToken': h_match,
    'Token::identifierValue': h_ident,
    'Identifier::string': h_string,
    'Identifier::operator==': h_identeq, 'operator==': h_identeq, 'Identifier::operator!=': h_identeq,
    'Parser::getTokenizer': lambda I, n, w: ('ptr', ('X', 'tokenizer'), ()),
    'Tokenizer::getPosition': h_pos, 'Tokenizer::setPosition': h_setpos,
    'ExpressionInternal::evaluate': h_evaluate,
    'FileManager::writeU8': h_write(8), 'FileManager::writeU16': h_write(16), 'FileManager::writeU32': h_write(32), 'FileManager::writeU64': h_write(64),
    'FileManager::advanceMemory': h_adv, 'FileManager::getVirtualAddress': h_addr,
    'tinyformat::format': lambda I, n, w: ('v', ('text',), None),
}


def rows_of(I, gname):
    """Rows of an opcode table as constant records."""
    P = I.P
    v = P.vars.get(gname)
    if v is None or 'init' not in v: return []
    agg = I.const_init(v['init'], v['ty'])
    rows = {}
    for p, x in agg[2]:
        if len(p) == 2 and p[0][0] == 'i': rows.setdefault(p[0][1], {})[p[1]] = x
    out = []
    for i in sorted(rows):
        r = rows[i]
        d = {}
        for k, x in r.items():
            if isinstance(x, tuple) and x[0] == 'ptr' and x[1][0] == 'S': d[k] = x
            else: d[k] = x
        if not (isinstance(d.get('name'), tuple)): break
        out.append(d)
    return out


def cstr(x):
    if isinstance(x, tuple) and x[0] == 'ptr' and x[1][0] == 'S': return x[1][1]
    if isinstance(x, tuple) and x[0] == 'str': return x[1]
    return None


def one_row(row, proto):
    """The table with just this row."""
    items = [((('i', 0), k), v) for k, v in row.items()]
    items += [((('i', 1), k), 0) for k in row]
    return ('agg', 0, tuple(items))


# ------------------------------------------------------------------ running one row
def byname(P, q):
    c = [f for f in P.by_name.get(q, ()) if P.fn[f].get('body') is not None] if hasattr(P, 'by_name') else []
    return c[0] if len(c) == 1 else None


def virt(I, cls, name):
    """The method of that name a class has, its own or inherited."""
    P = I.P; todo = [cls]
    while todo:
        c = todo.pop(0)
        for m in P.rec.get(c, {}).get('methods', ()):
            if m['n'] == name and P.fn.get(m['id'], {}).get('body') is not None: return m['id']
        todo += P.rec.get(c, {}).get('bases', [])
    return None


def enter(I, fid, this):
    """Interpret a function; reference and unknown parameters are fresh objects."""
    f = I.P.fn[fid]; vals = []
    for i, p in enumerate(f['params']):
        if I.P.ty(p['ty']).get('ref'): vals.append((p, True, ('ptr', ('X', 'arg:' + p['n'] if p.get('n') else 'arg%d' % i), ())))
        else: vals.append((p, False, ('v', ('arg', i), I.aty(p['ty']))))
    return I.enter(fid, vals, this, None)


def nonnull(I, r):
    """Keep only the case that the pointer is not null."""
    r = I.fix(r) if isinstance(r, tuple) else r
    while isinstance(r, tuple) and r[0] == 'ite' and (r[2] == 0 or r[3] == 0):
        pol = r[2] != 0
        I.assume(r[1], pol)
        if I.st is None: return 0
        r = I.fix(r[2] if pol else r[3])
    return r


class Out:
    """What one row does: operand shape, words, accepted state, error conditions."""
    __slots__ = ('shape', 'words', 'ops', 'rng', 'kills', 'adv', 'st', 'I', 'notes', 'pc', 'regdiff', 'dom')


def run_row(P, E, gname, row, stream, parse, hooks, setup, var=None):
    """Parse, lay out and write one row; None when it is not accepted."""
    p = Pipe(P, E, stream)
    I = p.I
    p.var = var or {}
    I.hooks.update(hooks)
    I.ginit[gname] = one_row(row, None)
    setup(I)
    I.dropnull = parse
    r = enter(I, parse, (('X', 'parser:this'), ()))
    if I.st is None: return None
    r = nonnull(I, r)
    if I.st is None or r == 0: return None
    if not (isinstance(r, tuple) and r[0] == 'ptr'): return ('?', 'parse result', r)
    cls = I.dyn.get(r[1])
    if cls is None: return ('?', 'class', r)
    syn = [e for e in I.st.ev]
    I.st.pc = ()
    va, en = virt(I, cls, 'Validate'), virt(I, cls, 'Encode')
    if va is None or en is None: return ('?', 'phases', cls)
    pk = len(p.kills)
    enter(I, va, (r[1], r[2]))
    if I.st is None: return ('?', 'never accepted', [k for k in p.kills[pk:]])
    n0 = len(I.st.ev)
    vev = I.st.ev[len(syn):]
    if p.var.get('pool'):
        # the literal is in a pool: the pool tells the instruction the address
        g = poolgate(vev); sp = virt(I, cls, 'setPoolAddress')
        if g is None or sp is None: return None
        for c, pol in g:
            I.assume(c, pol)
            if I.st is None: return None
        I.st.pc = ()
        f = P.fn[sp]
        I.enter(sp, [(f['params'][0], False, p.op('imm', ('pool',), 64, True))], (r[1], r[2]), None)
        if I.st is None: return ('?', 'never accepted', 'pool')
    I.st.ev = ()
    enter(I, en, (r[1], r[2]))
    o = Out()
    o.I = I; o.notes = dict(I.notes)
    o.kills = p.kills[pk:]
    if I.st is None: return ('?', 'no output', None)
    o.words = tuple(e for e in vev if keep(e)) + I.st.ev
    o.adv = vev
    o.dom = p.dom
    o.rng = I.st.rng; o.st = I.st; o.pc = I.st.pc
    o.ops = p.ops; o.regdiff = tuple(sorted(p.regdiff, key=repr))
    o.shape = shape(I, syn, p) + (' pool' if p.var.get('pool') else '')
    return o


def poolgate(ev):
    """Conditions under which a layout trace makes a pool entry."""
    for e in ev:
        if e[0] == 'pool': return ()
        if e[0] == 'gate':
            for pol, sub in ((True, e[2]), (False, e[3])):
                r = poolgate(sub)
                if r is not None: return ((e[1], pol),) + r
    return None


def keep(e):
    """Layout events that belong to the output: literal pool entries."""
    if e[0] == 'pool': return True
    return e[0] == 'gate' and any(keep(x) for x in e[2] + e[3])


def shape(I, ev, p):
    """The operand form: what is expected, in order."""
    out = []
    for e in ev:
        if e[0] == 'gate':
            a, b = shape(I, e[2], p), shape(I, e[3], p)
            if a and b and a != b: out.append('{ %s | %s }' % tuple(sorted((a, b))))
            elif a or b: out.append(a or b)
            continue
        if e[0] == 'loop':
            out.append('?'); continue
        if e[0] != 'syn': continue
        kind, ex, a = e[1], e[2], e[3]
        if kind in ('tok', 'opt'): out.append('%s%s' % ('?' if kind == 'opt' else '', tokname(I, ex[0])))
        else:
            s = kind + ':'.join(str(x) for x in ('',) + tuple(ex))
            r = I.st.rng.get(a)
            if r and r[0] == r[1]: s += '=%d' % r[0]
            elif r and kind == 'reg' and r[0] >= 0: s += ':%d-%d' % r
            for op in p.ops:
                if op[2] == a and len(op) > 3:
                    t = I.st.rng.get(op[3]); 
                    s += '/' + ('%d' % t[0] if t and t[0] == t[1] else '?')
            out.append(s)
    return ' '.join(out)


def tokname(I, v):
    for e in I.P.enums.get('TokenType', {}).get('e', ()):
        if e['v'] == v: return e['n']
    return str(v)


# ------------------------------------------------------------------ MIPS
M = 'MipsParser::'
MIPS_HOOKS = {
    M + 'parseRegisterNumber': const(0), M + 'parseRegisterTable': h_regtable, M + 'parseImmediate': h_imm,
    M + 'parseVfpuRegister': leaf('vfpu', 0, 127, sizearg=2, extra=vfputype),
    M + 'parseVfpuControlRegister': leaf('vfpuctl', 0, 15),
    M + 'parseRspVectorElement': leaf('rspve', 0, 15), M + 'parseRspScalarElement': leaf('rspse', 8, 15), M + 'parseRspOffsetElement': leaf('rspoe', 0, 15),
    M + 'parseVfpuCondition': leaf('vcond', 0, 15, fld=False), M + 'parseVpfxsParameter': leaf('vpfxs', 0, 0xfffff, fld=False),
    M + 'parseVpfxdParameter': leaf('vpfxd', 0, 0xfff, fld=False), M + 'parseVcstParameter': leaf('vcst', 0, 31, fld=False),
    M + 'parseVfpuVrot': leaf('vrot', 0, 31, fld=False, sizearg=2), M + 'parseCop2BranchCondition': leaf('c2cond', 0, 5, fld=False),
    M + 'parseWb': lambda I, n, w: (emit(I, 'syn', 'wb', (), None), 1)[1],
}
SIZES = ('s', 'p', 't', 'q')
CONDS = ('0', '1', '2', '3', '4', '5', 'any', 'all')


def mips_names(t):
    out = ['']
    for c in t:
        alt = SIZES if c == 'S' else CONDS if c == 'B' else (c,)
        out = [a + b for a in out for b in alt]
    return out


def setenum(I, g, value):
    """Set the processor variant an architecture object stands for (its member of enumeration type)."""
    if g not in I.P.vars: return 0
    cls = I.P.ty(I.P.vars[g]['ty']).get('rec')
    done = 0
    for f in I.P.rec.get(cls, {}).get('fields', ()):
        t = I.P.ty(f['ty'])
        if 'enum' in t: I.store((('G', g), (f['n'],)), value); done = 1
        elif t.get('bool'): I.store((('G', g), (f['n'],)), 0)
    return done


# ------------------------------------------------------------------ ARM and Thumb
A = 'ArmParser::'


def wrap_call(I, n, before, after):
    """Interpret the called function itself, with the pipe changed around it."""
    tg = I.P.targets(n)
    if len(tg) != 1: return NotImplemented
    this = I.obj_loc(n) if n.get('obj') is not None else I.frames[-1].this
    before()
    r = I.invoke(tg[0], n['args'], this, n)
    after()
    return r


def h_shift(I, n, want):
    """Optional shift: the token stream spells the variant under examination."""
    p = I.pipe; v = p.var.get('shift')
    if v is None or p.var.get('inshift'): return NotImplemented
    old = p.stream; k = p.pos()
    def before():
        p.stream = list(old) + [None] * (k - len(old))
        if v[0] == 'none': p.stream.append(('Separator',))
        else: p.stream += [('Comma',), ('Identifier', v[1])]
        p.var['inshift'] = 1; p.var['noreg'] = v[0] != 'reg'
        emit(I, 'syn', 'shift', v, None)
    def after():
        p.stream = old; p.var['inshift'] = 0; p.var['noreg'] = 0
    r = wrap_call(I, n, before, after)
    return r


def h_pshift(I, n, want):
    p = I.pipe; v = p.var.get('shift')
    if v is None or p.var.get('inshift'): return NotImplemented
    if v[0] == 'none': p.kill('variant'); return 0
    def before(): p.var['inshift'] = 1; p.var['noreg'] = v[0] != 'reg'; emit(I, 'syn', 'pshift', v[:1], None)
    def after(): p.var['inshift'] = 0; p.var['noreg'] = 0
    return wrap_call(I, n, before, after)


def h_rlist(I, n, want):
    d = I.lv(n['args'][1]); m = I.rv(n['args'][2])
    if I.st is None: return 0
    m = m if isinstance(m, int) else 0xffff
    a = I.pipe.op('rlist', (m,), 16, False)
    I.store(d, T.binop('&', a, m))
    return 1


def h_flag(kind):
    def h(I, n, want):
        d = I.lv(n['args'][1])
        if I.st is None: return 0
        a = ('v', ('op', I.pipe.nop), 'b'); I.pipe.nop += 1
        I.pipe.ops.append([kind, (), a]); emit(I, 'syn', kind, (), a)
        I.store(d, a)
        return 0
    return h


def h_psrt(I, n, want):
    d = I.lv(n['args'][1]); sh = I.rv(n['args'][2])
    if I.st is None: return 0
    p = I.pipe
    a = ('v', ('op', p.nop), 'b'); p.nop += 1
    p.ops.append(['spsr', (), a]); emit(I, 'syn', 'psr' if sh else 'psrf', (), a)
    I.store((d[0], d[1] + ('PsrData', 'spsr')), a)
    if not sh:
        I.store((d[0], d[1] + ('PsrData', 'field')), p.op('psrfield', (), lo=0, hi=15))
    p.adv(1)
    return 1


def h_pool(I, n, want):
    """A literal pool entry: the value and the instruction it belongs to."""
    v = I.rv(n['args'][1]) if len(n['args']) > 1 else 0
    if I.st is not None: emit(I, 'pool', v)
    return 0


ARM_HOOKS = {
    A + 'parseRegisterTable': h_regtable, A + 'parseImmediate': h_imm, A + 'parseRegisterList': h_rlist,
    A + 'parseShift': h_shift, A + 'parsePseudoShift': h_pshift,
    A + 'parseWriteback': h_flag('wb'), A + 'parsePsr': h_flag('caret'), A + 'parseSign': h_flag('sign'),
    A + 'parsePsrTransfer': h_psrt, 'CArmArchitecture::addPoolValue': h_pool,
}
ACOND = ('eq', 'ne', 'cs', 'hs', 'cc', 'lo', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le', 'al')
AMODE = ('ib', 'ia', 'db', 'da', 'ed', 'fd', 'ea', 'fa')
SHIFTS = (('none',), ('num', 'lsr5')) + tuple(('imm', t) for t in ('lsl', 'asl', 'lsr', 'asr', 'ror', 'rrx')) + tuple(('reg', t) for t in ('lsl', 'asl', 'lsr', 'asr', 'ror'))


def arm_names(t, full):
    out = ['']
    for c in t:
        alt = (('', 'lt') if not full else ('',) + ACOND) if c == 'C' else ('', 's') if c == 'S' else AMODE if c == 'A' else ('t', 'b') if c in 'XY' else (c,)
        out = [a + b for a in out for b in alt]
    return out


# ------------------------------------------------------------------ SuperH
S = 'ShParser::'
SH_HOOKS = {S + 'parseRegisterTable': h_regtable, S + 'parseImmediate': h_imm}
SHFORCED = ('r0', 'sr', 'gbr', 'vbr', 'mach', 'macl', 'pr', 'pc')
SYM = {',': 'Comma', '(': 'LParen', ')': 'RParen', '#': 'Hash', '-': 'Minus', '+': 'Plus'}


def sh_stream(name, enc, forced):
    """Token stream of a row."""
    st = []
    for i, part in enumerate(name.split('/')):
        if i: st.append(('Div',))
        st.append(('Identifier', part))
    i = 0
    while i < len(enc):
        f = next((x for x in forced if enc.startswith(x, i)), None) if forced else None
        if f: st.append(('Identifier', f)); i += len(f); continue
        c = enc[i]; i += 1
        if c in 'ts': st.append(('Identifier', 'rX'))
        elif c == 'i':
            while i < len(enc) and enc[i].isdigit(): i += 1
            st.append(('Integer',))
        elif c == '@':
            if enc[i:i + 1] in ('(', '-'): st.append(('Identifier', '@'))
            else: st.append(('Identifier', '@rX')); i += 1
        else: st.append((SYM.get(c, '?' + c),))
    st.append(('Separator',))
    return st



# ------------------------------------------------------------------ all rows
ARCHS = {
    'mips': ('MipsOpcodes', 'MipsParser::parseOpcode', MIPS_HOOKS, 'Mips', {'psx': 'MARCH_PSX', 'n64': 'MARCH_N64', 'ps2': 'MARCH_PS2', 'psp': 'MARCH_PSP', 'rsp': 'MARCH_RSP'}),
    'arm': ('ArmOpcodes', 'ArmParser::parseArmOpcode', ARM_HOOKS, 'Arm', {'gba': 'AARCH_GBA', 'nds': 'AARCH_NDS', '3ds': 'AARCH_3DS', 'le': 'AARCH_LITTLE', 'be': 'AARCH_BIG'}),
    'thumb': ('ThumbOpcodes', 'ArmParser::parseThumbOpcode', ARM_HOOKS, 'Arm', {'gba': 'AARCH_GBA', 'nds': 'AARCH_NDS', '3ds': 'AARCH_3DS'}),
    'sh': ('shOpcodes', 'ShParser::parseOpcode', SH_HOOKS, 'SuperH', {'saturn': 'SHARCH_SATURN'}),
}


def enumval(P, name):
    for e in P.enums.values():
        for x in e['e']:
            if x['n'] == name: return x['v']
    return None


def tasks(P, E, want=None, full=False):
    """[(arch, variant, row index, [streams], [variants])] of everything the tables hold."""
    out = []
    for arch, (g, pf, hooks, gv, vers) in ARCHS.items():
        if want and arch not in want: continue
        I = Interp(P, E, {})
        rows = rows_of(I, g)
        if any(cstr(r.get('name')) is None or cstr(r.get('mask', r.get('encoding'))) is None for r in rows) or arch == 'sh' and any('flags' not in r for r in rows): continue
        for i, r in enumerate(rows):
            nm = cstr(r['name']); enc = cstr(r['mask'] if 'mask' in r else r['encoding'])
            for vn in vers:
                if arch == 'mips': forms = [([('Identifier', x)], {}) for x in mips_names(nm)]
                elif arch == 'arm':
                    sh = SHIFTS if ('S' in enc or 'z' in enc) else (None,)
                    names = arm_names(nm, nm in ('bC', 'blC') or full)
                    forms = [([('Identifier', x)], {'shift': v} if v else {}) for k, x in enumerate(names) for v in sh if vn in ('gba', 'nds') or k == 0]
                elif arch == 'thumb': forms = [([('Identifier', nm)], {})]
                else: forms = [(sh_stream(nm, enc, SHFORCED if r['flags'] & 8 else ()), {})]
                if arch in ('arm', 'thumb') and '=' in enc: forms += [(f, dict(v, pool=1)) for f, v in forms]
                out.append((arch, vn, i, r, forms))
    return out


def keyname(stream):
    s = ''
    for t in stream:
        if t[0] == 'Div': s += '/'
        elif t[0] == 'Identifier' and (not s or s.endswith('/')): s += t[1]
        else: break
    return s


def run_task(P, E, t):
    """[(key, result)] of one row."""
    arch, vn, i, row, forms = t
    g, pf, hooks, gv, vers = ARCHS[arch]
    fid = byname(P, pf); ver = enumval(P, vers[vn])
    if fid is None or ver is None: return []
    out = []
    for stream, var in forms:
        o = run_row(P, E, g, row, stream, fid, hooks, lambda I: setenum(I, gv, ver), dict(var))
        if o is None: continue
        nm = keyname(stream)
        if isinstance(o, tuple): out.append((arch, vn, nm, i, 'undecided: %s %s' % (o[1], str(o[2])[:200]), None)); continue
        out.append((arch, vn, nm, i, o.shape + (' ' + ' '.join(x[1] for x in stream[1:] if len(x) > 1) if arch == 'sh' else ''), record(o)))
    return out


def record(o):
    """What is kept of a row: plain data."""
    rng = {}
    for op in o.ops:
        for a in op[2:]:
            if a in o.rng: rng[a] = o.rng[a]
            lo, hi = o.dom.get(a, (None, None))
            if lo is not None:
                r = rng.get(a, (lo, hi)); rng[a] = (max(lo, r[0]), min(hi, r[1]))
    return {'ev': o.words, 'ops': [(x[0], x[1], x[2:]) for x in o.ops], 'rng': rng, 'allrng': dict(o.rng), 'kills': o.kills, 'notes': o.notes, 'regdiff': o.regdiff, 'adv': o.adv}


_ctx = None


def _work(t):
    P, E = _ctx
    try: return run_task(P, E, t)
    except Exception as e: return [(t[0], t[1], keyname(f[0]), t[2], 'undecided: ' + repr(e)[:100], None) for f in t[4]]


def run_all(P, E, want=None, full=False):
    global _ctx
    import multiprocessing as mp, os, sys
    sys.setrecursionlimit(20000)
    _ctx = (P, E)
    ts = tasks(P, E, want, full)
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as pool:
        res = pool.map(_work, ts, chunksize=16)
    return [x for r in res for x in r]
