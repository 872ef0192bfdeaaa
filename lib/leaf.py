"""Parsers of single operands, specialised to fixed token streams by constant propagation.

Each function is interpreted on a token stream whose tokens are constants; if the returned flag and the
destination are constants, they are compared with the reference (what the architecture assigns to the
spelling).  Anything that is not a constant is left undecided."""
import itertools, json, os, re
from front import VERIF
from prog import strip, walk
import isa
from isa import Pipe, tok, toktext
from machine import const_of
import terms as T

PUNCT = {',': 'Comma', '(': 'LParen', ')': 'RParen', '[': 'LBrack', ']': 'RBrack', '{': 'LBrace', '}': 'RBrace', '#': 'Hash', '-': 'Minus', '+': 'Plus', '/': 'Div', '*': 'Mult',
         '$': 'Dollar', '|': 'BitOr', '!': 'Exclamation', '^': 'Caret', ':': 'Colon', '=': 'Assign'}


def lex(s):
    out = []
    for m in re.finditer(r'\s*(?:(\d+\.\d+)|(\d+[a-z]\w*)|(\d+)|([a-z_@][\w.]*)|(.))', s):
        fl, ns, i, ident, p = m.groups()
        if fl: out.append(('Float', fl, None))
        elif ns: out.append(('NumberString', ns, None))
        elif i: out.append(('Integer', i, int(i)))
        elif ident: out.append(('Identifier', ident, None))
        elif p and p.strip(): out.append((PUNCT[p], p, None))
    out.append(('Separator', '', None))
    return out


def tokof(I, l):
    r = l[0]
    if r[0] == 'X' and isinstance(r[1], str) and r[1].startswith(('tok', 'ident')):
        k = int(r[1].lstrip('tokiden'))
        if k < len(I.pipe.stream): return I.pipe.stream[k]
    return None


def h_int(I, n, want):
    t = tokof(I, I.obj_loc(n))
    return t[2] if t and t[2] is not None else NotImplemented


def h_text(I, n, want):
    t = tokof(I, I.obj_loc(n))
    if not t: return NotImplemented
    loc = (('X', 'text:' + t[1]), ())
    I.st.mem[loc] = ('str', t[1])
    return ('LOC', loc)


def h_size(I, n, want):
    t = tokof(I, I.obj_loc(n))
    return len(t[1]) if t else NotImplemented


def h_strchr(I, n, want):
    vs = [I.rv(a) for a in n['args']]
    if I.st is None: return 0
    t = isa.text_at(vs[0])
    if t is None or not isinstance(vs[1], int): return NotImplemented
    k = t.find(chr(vs[1])) if vs[1] else len(t)
    if k < 0: return 0
    p = vs[0]
    return ('ptr', p[1], (('i', p[2][0][1] + k),))


def h_arrsize(I, n, want):
    """std::size of an array: from its type."""
    t = n['args'][0]
    while isinstance(t, dict):
        m = re.search(r'\[(\d+)\]$', t.get('ty', ''))
        if m: return int(m.group(1))
        t = t.get('e')
    return NotImplemented


def h_lower(I, n, want):
    v = I.rv(n['args'][0])
    return ord(chr(v).lower()) if isinstance(v, int) and 0 <= v < 128 else NotImplemented


def entries(P, fid):
    """The (result, tokens, values) rows a function gives its sequence parser."""
    out = []
    for c in walk(P.fn[fid]['body']):
        if c.get('k') != 'call' or not c.get('name', '').endswith('TokenSequenceParser::addEntry') or len(c['args']) < 3: continue
        r = const_of(c['args'][0])
        toks = [x['n'] if 'n' in x else None for x in walk(c['args'][1]) if x.get('k') == 'ref' and x.get('dk') == 'enum']
        vals = [x['v'] for x in walk(c['args'][2]) if x.get('k') in ('str', 'int', 'float')]
        out.append((r, toks, vals))
    return out


def h_seq(ents):
    def h(I, n, want):
        d = I.lv(n['args'][1])
        p = I.pipe; k = p.pos()
        for r, toks, vals in ents:
            v = list(vals); ok = True
            for j, t in enumerate(toks):
                x = p.stream[k + j] if k + j < len(p.stream) else None
                if x is None or t.split('::')[-1] != x[0]: ok = False; break
                if x[0] in ('Identifier', 'Integer'):
                    if not v or v.pop(0) != (x[1] if x[0] == 'Identifier' else x[2]): ok = False; break
            if ok and not v:
                p.adv(len(toks)); I.store(d, r); return 1
        return 0
    return h


def run(P, E, q, text, args=(), dest=('num',), extra=None):
    """(returned flag, destination value, tokens consumed), None where not a constant."""
    fid = isa.byname(P, q)
    if fid is None: return None
    p = Pipe(P, E, lex(text)); I = p.I
    I.hooks.update({'Token::intValue': h_int, 'Token::getOriginalText': h_text, 'Identifier::size': h_size, 'strchr': h_strchr, 'std::strchr': h_strchr,
                    'std::size': h_arrsize, 'tolower': h_lower, 'std::tolower': h_lower, 'std::any_of': lambda I, n, w: 0, 'iswupper': lambda I, n, w: 0})
    ents = entries(P, fid)
    I.hooks['TokenSequenceParser::parse'] = h_seq(ents)
    I.hooks['TokenSequenceParser::getEntryCount'] = lambda I, n, w: 1
    if extra: I.hooks.update(extra)
    f = P.fn[fid]; vals = []; k = 0; dl = None
    for i, pr in enumerate(f['params']):
        t = P.ty(pr['ty'])
        if t.get('ref'):
            r = ('X', 'arg%d' % i)
            if i == 1: dl = r
            vals.append((pr, True, ('ptr', r, ())))
        else:
            v = args[k] if k < len(args) else ('v', ('arg', i), I.aty(pr['ty'])); k += 1
            if callable(v): v = v(I)
            vals.append((pr, False, v))
    try: r = I.enter(fid, vals, (('X', 'parser:this'), ()), None)
    except RecursionError: return None
    if I.st is None: return (0, None, None)
    r = I.fix(r) if isinstance(r, tuple) else r
    if not any(x.get('k') == 'return' and x.get('e') is not None for x in walk(f['body'])): r = 1
    if not isinstance(r, int): return None
    if r == 0: return (0, None, None)
    out = []
    for d in dest:
        d = tuple(d.split('.')) if d else ()
        v = I.load((dl, d), None)
        v = I.fix(v) if isinstance(v, tuple) else v
        if not isinstance(v, int): return None
        out.append(v)
    return (1, out, p.pos())


def cases():
    """[(id, function, text, args, destination members)]"""
    M, A = 'MipsParser::', 'ArmParser::'
    out = []
    for n in (32, 16):
        for k in (0, 1, 7, 8, 15, 16, 31, 32): out.append((M + 'parseRegisterNumber', '$%d' % k, (n,), ('num',)))
    for f in ('parseRegister', 'parseFpuRegister', 'parseCop0Register'):
        for t in ('$4', '$31', '$32', 'a0', '$a0', 'sp', 'f12', '$f12', 'status', '$status', 'nope', '4', '$', '$nope'): out.append((M + f, t, (), ('num',)))
    for m in 'cresmx':
        for mtx, cs in ((0, (0, 1, 2, 3, 4)), (5, (1,)), (7, (2,)), (8, (0,))):
            for c in cs:
                for r in (0, 1, 2, 3, 4):
                    for s in range(4): out.append((M + 'parseVfpuRegister', '%s%d%d%d' % (m, mtx, c, r), (s,), ('num', 'type')))
    for t in ('c0000', 'c00', 'cx00', 'c0x0', 'c00x'): out.append((M + 'parseVfpuRegister', t, (1,), ('num',)))
    for t in ('spfx', 'tpfx', 'dpfx', 'cc', 'inf4', 'rsv5', 'rsv6', 'rev', 'rcx0', 'rcx1', 'rcx2', 'rcx3', 'rcx4', 'rcx5', 'rcx6', 'rcx7', 'nope', '0', '7', '15', '16'): out.append((M + 'parseVfpuControlRegister', t, (), ('num',)))
    for t in ('fl', 'eq', 'lt', 'le', 'tr', 'ne', 'ge', 'gt', 'ez', 'en', 'ei', 'es', 'nz', 'nn', 'ni', 'ns', 'xx', '3'): out.append((M + 'parseVfpuCondition', t, (), ('',)))
    for t in ('0', '1', '2', '3', '4', '5', '6', 'any', 'all', 'x', 'y', 'z', 'w', 'q', 'an'): out.append((M + 'parseCop2BranchCondition', t, (), ('',)))
    for t in ['', ','] + ['[%s]' % x for x in ['0q', '1q', '2q', '0h', '1h', '2h', '3h', '4h', '0w', '1w', '2w', '3w', '4w', '5w', '6w', '7w', '8w'] + [str(i) for i in range(9)] + ['$%d' % i for i in (0, 1, 2, 8, 15, 16)]] + ['[1', '[1q,']:
        out.append((M + 'parseRspVectorElement', t, (), ('num',)))
    for i in (0, 1, 3, 7, 8, 15, 16):
        out.append((M + 'parseRspScalarElement', '[%d]' % i, (), ('num',)))
        out.append((M + 'parseRspOffsetElement', '[%d]' % i, (), ('num',)))
    for t in ('', '[3', '3', '[a]'):
        out.append((M + 'parseRspScalarElement', t, (), ('num',)))
        out.append((M + 'parseRspOffsetElement', t, (), ('num',)))
    for s in (1, 2, 3):
        for els in itertools.product(('c', 's', '0', '-s', '-c'), repeat=s + 1): out.append((M + 'parseVfpuVrot', '[' + ','.join(els) + ']', (s,), ('',)))
    out.append((M + 'parseVfpuVrot', '[c,s', (1,), ('',)))
    for t in ('maxfloat', 'sqrt(2)', 'sqrt(1/2)', '2/sqrt(pi)', '2/pi', '1/pi', 'pi/4', 'pi/2', 'pi', 'e', 'log2(e)', 'log10(e)', 'ln(2)', 'ln(10)', '2*pi', 'pi/6', 'log10(2)', 'log2(10)', 'sqrt(3)/2', 'pi/3', 'sqrt(5)'):
        out.append((M + 'parseVcstParameter', t, (), ('',)))
    el = ('x', 'y', 'z', 'w', '|x|', '|w|', '-y', '-|z|', '0', '1', '2', '3', '1/2', '1/3', '1/4', '1/6', '-1', '-1/6')
    for i in range(4):
        for e in el: out.append((M + 'parseVpfxsParameter', ','.join(e if j == i else 'xyzw'[j] for j in range(4)), (), ('',)))
    for t in ('x,y,z', 'x,y,z,q', '|1|,y,z,w', '|x,y,z,w', '5,x,y,z'): out.append((M + 'parseVpfxsParameter', t, (), ('',)))
    for els in itertools.product(('', 'm', '[0:1]', '[-1:1]'), repeat=4): out.append((M + 'parseVpfxdParameter', ','.join(els), (), ('',)))
    for t in ('m,m,m', 'x,,,', '[0:2],,,', '[1:1],,,'): out.append((M + 'parseVpfxdParameter', t, (), ('',)))
    for t in ('r0', 'r15', 'sp', 'lr', 'pc', 'p3', 'c4', 'r16'):
        for f in ('parseRegister', 'parseCopRegister', 'parseCopNumber'): out.append((A + f, t, (15,), ('num',)))
    for t in ('r7', 'r8'): out.append((A + 'parseRegister', t, (7,), ('num',)))
    for t in ('r0', 'r0,r1', 'r0-r3', 'r0-r3,r5', 'r4-r4', 'r1,lr', 'r0-r7,lr', 'r0-r12,pc', 'sp', 'r3-r1', 'r0,', 'r8', 'r0-r15', 'r13-r15,r2'):
        for m in (0xffff, 0x40ff, 0x80ff, 0xff): out.append((A + 'parseRegisterList', t, (m,), ('',)))
    for t in ('cpsr', 'spsr', 'cpsr_ctl', 'cpsr_flg', 'spsr_ctl', 'spsr_flg', 'cpsr_f', 'cpsr_s', 'cpsr_x', 'cpsr_c', 'cpsr_fsxc', 'cpsr_cxsf', 'spsr_fc', 'cpsr_ff', 'cpsr_q', 'cpsrx', 'r0', 'cpsr_ctlx'):
        out.append((A + 'parsePsrTransfer', t, (0,), ('PsrData.spsr', 'PsrData.field')))
        out.append((A + 'parsePsrTransfer', t, (1,), ('PsrData.spsr',)))
    for f, ts in (('parseWriteback', ('!', '', '^')), ('parsePsr', ('^', '', '!')), ('parseSign', ('+', '-', '', 'r0'))):
        for t in ts: out.append((A + f, t, (), ('',)))
    for t in ('r0', 'r15', '@r3', 'r16'): out.append(('ShParser::parseRegister', t, (), ('num',)))
    return out


def key(c): return '%s(%s) %s' % (c[0], ','.join(str(x) for x in c[2]), c[1])


_ctx = None


def _work(c):
    P, E = _ctx
    try: r = run(P, E, c[0], c[1], c[2], c[3])
    except Exception as e: r = None
    return (key(c), r)


def run_all(P, E):
    global _ctx
    import multiprocessing as mp, sys
    sys.setrecursionlimit(20000)
    _ctx = (P, E)
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as pool: return pool.map(_work, cases(), chunksize=32)


def load():
    out = {}
    p = os.path.join(VERIF, 'ref', 'operands.txt')
    for l in open(p):
        k, v = l.rstrip('\n').split('\t')
        out[k] = json.loads(v)
    return out


def save(res):
    with open(os.path.join(VERIF, 'ref', 'operands.txt'), 'w') as f:
        for k, r in res: f.write('%s\t%s\n' % (k, json.dumps(r)))
