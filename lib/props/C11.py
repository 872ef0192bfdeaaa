"""C11: expressions follow the documented operators and precedence."""
import math
import check as CK
import phases as F
import terms as T
from absint import Interp, show
from isaref import wrap

RULE = """abstract interpretation of the three stages an operator passes through: the lexer case of every spelling (spelling -> token kind), the expression grammar on every token-kind string of two binary operators, each unary/binary, binary/unary, bracket, conditional and call combination (token kinds -> operator tree, compared with the C precedence table), and evaluate() of every operator for every combination of operand types with symbolic operands (result type and value term, compared with the documented operation as normal form or on the boundary values of its operands); names, positions, calls and node constructors likewise"""
ASSUMPTIONS = ['the C++ operation on int64_t, double and std::string means what the language says', 'shift counts outside 0..63 are outside the documented behaviour']
LEVEL = 'other'

# ---------------------------------------------------------------- documented behaviour
BIN = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>'], ['+', '-'], ['*', '/', '%']]
LEVELOF = {o: i for i, l in enumerate(BIN) for o in l}
UN = ['+', '-', '~', '!']
OTHER = ['(', ')', '?', ':', ',']
NAMES = {'||': 'LogOr', '&&': 'LogAnd', '|': 'BitOr', '^': 'Caret', '&': 'BitAnd', '==': 'Equal', '!=': 'NotEqual', '<': 'Less', '<=': 'LessEqual', '>': 'Greater', '>=': 'GreaterEqual', '<<': 'LeftShift', '>>': 'RightShift', '+': 'Plus', '-': 'Minus', '*': 'Mult', '/': 'Div', '%': 'Mod', '~': 'Tilde', '!': 'Exclamation', '(': 'LParen', ')': 'RParen', '?': 'Question', ':': 'Colon', ',': 'Comma'}

TY = {'I': 'Integer', 'F': 'Float', 'S': 'String', 'X': 'Invalid'}
M = 1 << 63


def i64(x): return wrap(x, 64, True)


def num(x): return isinstance(x, (int, float))


def text(x): return x if isinstance(x, str) else ('num', x)


def fdiv(a, b):
    if b == 0: return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def ref(op, v):
    """Documented result of an operator: ('I'|'F'|'S', value), 'X' (no value), '01' (some truth value or none), None (not specified)."""
    if len(v) == 1:
        a = v[0]
        if op == '-': return ('I', i64(-a)) if isinstance(a, int) else ('F', -a) if isinstance(a, float) else 'X'
        if op == '~': return ('I', ~a) if isinstance(a, int) else 'X'
        if op == '!': return ('I', int(not a)) if num(a) else '01'
    a, b = v
    if isinstance(a, int) and isinstance(b, int):
        if op in ('/', '%'):
            if b == 0: return 'report'
            if a == -M and b == -1: return ('I', -M if op == '/' else 0)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            return ('I', q if op == '/' else a - q * b)
        if op in ('<<', '>>'):
            if not 0 <= b <= 63: return None
            return ('I', i64(a << b) if op == '<<' else i64((a & (2 * M - 1)) >> b))
        if op in ('+', '-', '*', '&', '|', '^'):
            return ('I', i64({'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b}[op]))
    if num(a) and num(b):
        if op in ('&&', '||'): return ('I', int(bool(a) and bool(b)) if op == '&&' else int(bool(a) or bool(b)))
        if isinstance(a, float) or isinstance(b, float): a, b = float(a), float(b)
        if op in ('<', '<=', '>', '>=', '==', '!='): return ('I', int(eval('a %s b' % op)))
        if op in ('+', '-', '*'): return ('F', {'+': a + b, '-': a - b, '*': a * b}[op])
        if op == '/': return ('F', fdiv(a, b))
        return 'X'
    if a is None or b is None:
        return '01' if op in ('<', '<=', '>', '>=', '==', '!=', '&&', '||') else 'X'
    # at least one string
    if op == '+': return ('S', [text(a), text(b)])
    if isinstance(a, str) and isinstance(b, str) and op in ('<', '<=', '>', '>=', '==', '!='): return ('I', int(eval('a %s b' % op)))
    if op in ('==', '!='):
        s, n = (a, b) if isinstance(a, str) else (b, a)
        if isinstance(n, float): return None      # depends on the textual form of a float
        return ('I', int((s == str(n)) == (op == '==')))
    if op in ('<', '<=', '>', '>=', '&&', '||'): return '01'
    return 'X'


# ---------------------------------------------------------------- evaluation of derived terms
class Trap(Exception): pass
class Unknown(Exception): pass


STR = ('std::operator+', 'std::operator<', 'std::operator<=', 'std::operator>', 'std::operator>=', 'std::operator==', 'std::operator!=')


def ev(t, env):
    if isinstance(t, (int, float, str)): return t
    if t is None: raise Unknown('value')
    h = t[0]
    if h == 'flt': return float(t[1])
    if h == 'str': return t[1]
    if h == 'ptr':
        if t[1][0] == 'S' and t[2] == (('i', 0),): return t[1][1]
        if t[1][0] == 'T' or t[1][0] == 'X': raise Unknown('address')
        raise Unknown(str(t)[:60])
    if h == 'v':
        k = t[1]
        if k in env: return wrap(env[k], *t[2]) if k[0] == 'bytes' and isinstance(t[2], tuple) else env[k]
        if k == ('in', ('G', 'std::basic_string::npos'), ()): return (1 << 64) - 1
        if k[0] == 'float': return float(ev(k[1], env))
        if k[0] == 'toint':
            x = ev(k[1], env)
            if not abs(x) < 2.0 ** 63: raise Unknown('range')
            return int(x)
        if k[0] == 'empty' and 'string' in k[1]: return ''
        if k[0] == 'bits':
            import struct
            x = ev(k[2], env)
            if k[1] == 'floatValue' and isinstance(x, int): return struct.unpack('<d', struct.pack('<q', i64(x)))[0]
            if k[1] == 'intValue' and isinstance(x, float): return struct.unpack('<q', struct.pack('<d', x))[0]
            raise Unknown('bits')
        if k[0] == 'same': return int(ev(k[1], env) == ev(k[2], env))
        if k[0] == 'app': return app(k, env)
        raise Unknown(str(k)[:60])
    if h == 'lin' or h == 'eq0':
        e = t[1] if h == 'eq0' else t
        if isinstance(e, tuple) and e[0] == 'lin':
            vs = [(ev(u, env), c) for u, c in e[2]]
            if any(isinstance(x, str) for x, c in vs):
                if h == 'eq0' and e[1] == 0 and len(vs) == 2 and {c for x, c in vs} == {1, -1}: return int(vs[0][0] == vs[1][0])
                raise Unknown('text')
            x = e[1] + sum(x * c for x, c in vs)
        else: x = ev(e, env)
        if h == 'lin': return x
        if isinstance(x, str): raise Unknown('text')
        return int(x == 0)
    if h == 'ite': return ev(t[2] if ev(t[1], env) else t[3], env)
    if h == 'wrap':
        x = ev(t[3], env)
        if not isinstance(x, int): raise Unknown('wrap')
        return wrap(x, t[1], t[2])
    if h == 'le0': return int(ev(t[1], env) <= 0)
    if h == 'not': return int(not ev(t[1], env))
    if h == 'abs': return abs(ev(t[1], env))
    if h == 'and': return int(bool(ev(t[1], env)) and bool(ev(t[2], env)))
    if h == 'or': return int(bool(ev(t[1], env)) or bool(ev(t[2], env)))
    if h in ('&', '|', '^', '*', '/', '%', '>>', '<<'):
        a, b = ev(t[1], env), ev(t[2], env)
        if not (isinstance(a, int) and isinstance(b, int)): raise Unknown(h)
        if h in ('/', '%'):
            if b == 0: raise Trap('divides by zero')
            if a == -M and b == -1: raise Trap('divides the smallest number by -1')
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            return q if h == '/' else a - q * b
        if h in ('>>', '<<') and not 0 <= b <= 63: raise Unknown('shift')
        return {'&': a & b, '|': a | b, '^': a ^ b, '*': a * b}[h] if h in '&|^*' else a >> b if h == '>>' else a << b
    raise Unknown(h)


EXT = {}      # further library functions: name -> f(receiver, arguments)


def app(k, env):
    name = k[1]
    def arg(x):
        if isinstance(x, tuple) and x[0] == 'v' and isinstance(x[1], tuple) and x[1][0] == 'in' and x[1][1][0] == 'G' and str(x[1][1][1]).startswith('std::') and not x[1][1][1].endswith('npos'): return ('const', x[1][1][1])
        return ev(x, env)
    if name in EXT and len(k) == 3 and isinstance(k[2], tuple): return EXT[name](None, [arg(x) for x in (k[2] if not k[2] or not isinstance(k[2][0], str) else (k[2],))])
    if name in EXT and len(k) >= 4:
        return EXT[name](ev(k[2], env) if k[2] is not None else None, [arg(x) for x in k[3]])
    if name[0] == 'f' and name[1:] in ('+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!='):
        vs = [ev(x, env) for x in k[2:]]
        o = name[1:]
        if len(vs) == 1: return -vs[0]
        a, b = float(vs[0]), float(vs[1])
        if o == '/': return fdiv(a, b)
        r = eval('a %s b' % o)
        return r if o in '+-*' else int(r)
    if name == 'fabs' and len(k) == 3: return abs(ev(k[2], env))
    if name in LIBM:
        vs = [float(ev(x, env)) for x in (k[3][:1] if 'modf' in name else k[3])]
        return LIBM[name](*vs)
    if name == 'format':
        f = ev(k[2][0], env); vs = [ev(x, env) for x in k[2][1:]]
        try: return cformat(f, vs)
        except (TypeError, ValueError, OverflowError): raise Unknown('format')
    if name in STR or name in ('==', '!=', '<', '>', '<=', '>='):
        o = name.replace('std::operator', '')
        vs = [ev(x, env) for x in (k[3] if name in STR else k[2:])]
        if len(vs) != 2: raise Unknown(name)
        if isinstance(vs[0], str) != isinstance(vs[1], str): raise Unknown(name)
        if o == '+': return vs[0] + vs[1]
        return int(eval('vs[0] %s vs[1]' % o))
    if name == 'std::basic_string::compare' and len(k[3]) == 1:
        a, b = ev(k[2], env), ev(k[3][0], env)
        return (a > b) - (a < b)
    if name in ('std::basic_string', 'std::basic_string::basic_string'): return ev(k[2] if not isinstance(k[2][0], tuple) else k[2][0], env)
    if name == 'std::to_string': return str(ev(k[3][0], env))
    raise Unknown('app ' + name)


def cformat(f, vs):
    """printf-like formatting: hexadecimal and unsigned conversions show the 64 bits of a number."""
    import re
    out = []; vs = list(vs); at = 0
    for m in re.finditer(r'%([-+ #0]*)(\*|\d*)(?:\.(\d+))?(?:hh|h|ll|l|z|j|t)?([a-zA-Z%])', f):
        out.append(f[at:m.start()]); at = m.end()
        fl, w, pr, c = m.groups()
        if c == '%': out.append('%'); continue
        if w == '*':
            w = vs.pop(0)
            if not isinstance(w, int) or w > 1000: raise ValueError
            if w < 0: fl += '-'; w = -w
        v = vs.pop(0)
        if isinstance(v, int) and c in 'xXou': v &= (1 << 64) - 1
        if isinstance(v, str) and c in 'xXoudi': raise ValueError
        if c == 'u': c = 'd'
        out.append(('%' + fl + str(w) + ('.' + pr if pr else '') + c) % v)
    if vs: raise ValueError
    return ''.join(out) + f[at:]


def rnd(x):
    return int(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)


LIBM = {'llround': rnd, 'lround': rnd, 'std::llround': rnd, 'round': lambda x: float(rnd(x)), 'std::round': lambda x: float(rnd(x)), 'fabs': abs, 'std::fabs': abs, 'trunc': lambda x: float(int(x)), 'floor': math.floor, 'ceil': math.ceil, 'modf': lambda x, *a: math.modf(x)[0], 'std::modf': lambda x, *a: math.modf(x)[0], 'std::trunc': lambda x: float(int(x))}


GRID = {'I': [0, 1, -1, 2, 3, 5, 7, -7, 10, 33, 63, 1 << 31, -(1 << 31), (1 << 32) + 3, 0x0123456789ABCDEF, M - 1, -M, -M + 1],
        'F': [0.0, 0.25, -1.5, 2.0, 3.0, -7.0, 1e10, 0.75, -0.0, 0.1, 123456789.125],
        'S': ['', 'a', 'b', 'ab', '0', '2', '10', '-7'], 'X': [None]}


# ---------------------------------------------------------------- operators
SELF = ('X', 'self')


class Values:
    """Field names of a value and its types, as the program declares them."""
    def __init__(s, P):
        s.VT = {e['n']: e['v'] for e in P.enums['ExpressionValueType']['e']}
        s.OT = {e['n']: e['v'] for e in P.enums['OperatorType']['e']}
        s.types = {v: k for k, v in s.VT.items()}

    def put(s, I, loc, ty, k):
        """An operand of the given type with symbolic contents."""
        t = TY[ty]
        for p in (('type',),): I.store((loc[0], loc[1] + p), s.VT[t])
        for p in ((), ('ExpressionValue::(anon)',)):
            if t == 'Float': I.store((loc[0], loc[1] + p + ('floatValue',)), ('v', ('op', k, 'f'), 'f'))
            else: I.store((loc[0], loc[1] + p + ('intValue',)), ('v', ('op', k, 'i'), (64, True)) if t == 'Integer' else 0)
        I.store((loc[0], loc[1] + ('strValue', '_value')), ('v', ('op', k, 's'), None) if t == 'String' else ('str', ''))

    def fields(s, v):
        """(type, int, float, text) of a result value."""
        if isinstance(v, tuple) and v[0] == 'agg':
            d = {p[-1] if p[-1] != '_value' else 'strValue': x for p, x in v[2]}
            if 'type' in d: return [(1, (d['type'], d.get('intValue'), d.get('floatValue'), d.get('strValue')))]
        if isinstance(v, tuple) and v[0] == 'ite':
            return [(T.band(v[1], c), f) for c, f in s.fields(v[2])] + [(T.band(T.bnot(v[1]), c), f) for c, f in s.fields(v[3])]
        raise Unknown('result %s' % str(v)[:80])


def diag_hooks(hk):
    def h_err(I, n, want):
        s = I.rv(n['args'][0])
        if I.st is not None: I.store((('X', 'diag'), ()), 2 if s in F.ERRORS else 1)
        return 0
    def h_fmt(I, n, want):
        vs = tuple(I.rv(a) for a in n['args'])
        return ('v', ('app', 'format', vs), None)
    for x in ('Logger::queueError', 'Logger::printError'): hk[x] = h_err
    for x in ('tfm::format', 'tinyformat::format'): hk[x] = h_fmt
    return hk


def operator(P, E, V, opv, tys, more=None):
    """Interpret evaluate() of a node with operands of the given types."""
    me = [i for i, f in P.fn.items() if f['name'] == 'ExpressionInternal::evaluate'][0]
    def h_eval(I, n, want):
        l = I.obj_loc(n)
        if I.st is None: return 0
        if l == (SELF, ()): return NotImplemented
        if not (l[0][0] == 'X' and l[0][1].startswith('child')): return ('v', ('?eval', I.nobj), None)
        k = int(l[0][1][5:])
        I.store((('X', 'done'), (k,)), 1)
        I.nobj += 1; t = ('T', I.nobj)
        V.put(I, (t, ()), tys[k] if k < len(tys) else 'X', k)
        return I.load((t, ()), None)
    def h_size(I, n, want):
        l = I.obj_loc(n)
        if I.st is not None and l[0] == SELF and l[1] == ('children',): return len(tys)
        return NotImplemented
    hk = diag_hooks({'ExpressionInternal::evaluate': h_eval, 'std::vector::size': h_size, 'ExpressionInternal::toString': lambda I, n, w: ('v', ('text', 0), None)})
    if more: hk.update(more)
    I = Interp(P, E, hk)
    I.unroll = 100
    I.dyn[SELF] = 'ExpressionInternal'
    I.store((SELF, ('type',)), opv)
    for k in range(len(tys)):
        I.store((SELF, ('children', ('i', k))), ('ptr', ('X', 'child%d' % k), ()))
        I.store((('X', 'done'), (k,)), 0)
    I.store((('X', 'diag'), ()), 0)
    r = I.enter(me, [], (SELF, ()), None)
    if I.st is None: raise Unknown('no result')
    return I, r


def close(a, b):
    if a != a or b != b: return a != a and b != b
    return a == b


def settle(V, fs, env, typeonly=False):
    """Concrete (type name, value) of a result under a valuation."""
    for c, (t, i, f, s) in fs:
        if not (ev(c, env) if isinstance(c, tuple) else c): continue
        t = V.types.get(ev(t, env))
        if typeonly and t in ('Integer', 'Float', 'String'): return (t[0], '?')
        if t == 'Integer': return ('I', ev(i, env))
        if t == 'Float': return ('F', ev(f, env))
        if t == 'String': return ('S', ev(s, env))
        return 'X'
    raise Unknown('no case')


def agrees(got, want):
    if want is None: return True
    if want == 'X': return got == 'X'
    if want == '01': return got == 'X' or got[0] == 'I' and got[1] in (0, 1)
    if want[0] == 'S':
        if got == 'X' or got[0] != 'S': return False
        s = got[1]
        parts = want[1]
        if all(isinstance(p, str) for p in parts): return s == ''.join(parts)
        # a number converted to text
        i = 0 if not isinstance(parts[0], str) else 1
        other = parts[1 - i]
        t = s[:len(s) - len(other)] if i == 0 and s.endswith(other) else s[len(other):] if i == 1 and s.startswith(other) else None
        if t is None: return False
        n = parts[i][1]
        if isinstance(n, int): return t == str(n)
        try: return close(float(t), n)
        except ValueError: return False
    return got != 'X' and got[0] == want[0] and close(got[1], want[1])


def envs(tys, only=None):
    import itertools
    for vs in itertools.product(*[GRID[t] for t in tys]):
        env = {}
        for k, v in enumerate(vs):
            if v is None: continue
            env[('op', k, 'i' if isinstance(v, int) else 'f' if isinstance(v, float) else 's')] = v
            if isinstance(v, float):
                import struct
                env[('rawbits', k)] = struct.unpack('<q', struct.pack('<d', v))[0]
            else: env[('rawfloat', k)] = 4.9e-324 if v else 0.0
        yield vs, env


def lit(v): return '(no value)' if v is None else repr(v) if not isinstance(v, str) else '"%s"' % v


def shown(r):
    return 'no value' if r == 'X' else 'a value other than 0 and 1' if r == '01' else '%s' % lit(r[1]) if not isinstance(r[1], list) else ' + '.join(map(str, r[1]))


def operators(P, E, V, res, und, chain):
    names = {'I': 'integer', 'F': 'float', 'S': 'string', 'X': 'invalid'}
    ncomb = npts = 0
    for op, ar, opv in chain:
        for tys in ([(a,) for a in 'IFSX'] if ar == 1 else [(a, b) for a in 'IFSX' for b in 'IFSX']):
            sp = '%s %s' % (op, names[tys[0]]) if ar == 1 else '%s %s %s' % (names[tys[0]], op, names[tys[1]])
            ncomb += 1
            try:
                I, r = operator(P, E, V, opv, tys)
                fs = V.fields(r)
                dg = I.load((('X', 'diag'), ()))
                done = [I.load((('X', 'done'), (k,))) for k in range(ar)]
            except (Unknown, RecursionError) as x: und.append('%s: %s' % (sp, x)); continue
            bad = None; u = None
            for vs, env in envs(tys):
                want = ref(op, vs)
                if want is None: continue
                npts += 1
                ex = ('%s%s' % (op, lit(vs[0]))) if ar == 1 else '%s %s %s' % (lit(vs[0]), op, lit(vs[1]))
                try:
                    if want == 'report':
                        got = settle(V, fs, env)      # must not trap
                        if not ev(dg, env): bad = '%s is not reported' % ex; break
                        continue
                    got = settle(V, fs, env, want == 'X')
                    if not agrees(got, want): bad = '%s gives %s, not %s' % (ex, shown(got), shown(want)); break
                except Trap as x: bad = '%s %s' % (ex, x); break
                except (Unknown, OverflowError) as x: u = str(x)
            f = P.fn['ExpressionInternal::evaluate()'] if 'ExpressionInternal::evaluate()' in P.fn else {'file': '?', 'line': 0}
            if bad: res.ob(sp, False, 'op.%s.%s' % (op, ''.join(tys)), 'operator %s (reached from %s:%s): %s' % (sp, f['file'], f['line'], bad))
            elif u: und.append('%s: %s' % (sp, u))
            else: res.ob('%s: result type and value' % sp)
    res.stats['operator_type_combinations'] = ncomb
    res.stats['boundary_points'] = npts


def conditional(P, E, V, res, und, opv):
    for c in 'IF':
        for a in 'IFS':
            tys = (c, a, 'I'); sp = 'condition of type %s' % TY[c]
            try:
                I, r = operator(P, E, V, opv, tys)
                fs = V.fields(r)
                done = [I.load((('X', 'done'), (k,))) for k in range(3)]
            except (Unknown, RecursionError) as x: und.append('?:: %s' % x); continue
            bad = None
            for vs, env in envs(tys):
                try:
                    got = settle(V, fs, env)
                    k = 1 if vs[0] else 2
                    w = vs[k]
                    want = ('I' if isinstance(w, int) else 'F' if isinstance(w, float) else 'S', w if not isinstance(w, str) else [w])
                    if not agrees(got, want): bad = '%s ? %s : %s gives %s' % (lit(vs[0]), lit(vs[1]), lit(vs[2]), shown(got)); break
                    if ev(done[3 - k], env): bad = '%s ? a : b evaluates the operand that was not chosen' % lit(vs[0]); break
                except Trap as x: bad = '?: %s' % x; break
                except (Unknown, OverflowError) as x: und.append('?: %s' % x); break
            if bad: res.ob('?:', False, 'op.?:', 'conditional operator: %s' % bad); return
    res.ob('?: chooses and evaluates one operand')


# ---------------------------------------------------------------- lexer
TK = ('X', 'lexer')


def lexer(P, E, res, und):
    """{spelling: token kind}"""
    fs = [i for i, f in P.fn.items() if f['name'].endswith('::parseOperator') and f.get('body') is not None]
    TT = {e['n']: e['v'] for e in P.enums['TokenType']['e']}
    out = {s: TT.get(NAMES[s]) for s in NAMES}
    if len(fs) != 1: und.append('operator lexer not found'); return out
    fid = fs[0]
    got = {}
    for sp in NAMES:
        for follow in (' ', 'a', ''):
            txt = sp + follow
            made = []
            def h_tok(I, n, want):
                v = I.rv(n['args'][0]); l = I.rv(n['args'][1]) if len(n['args']) > 1 else None
                if I.st is not None: made.append((v, l, I.st.pc))
                return 0
            def h_size(I, n, want):
                l = I.obj_loc(n)
                return len(txt) if I.st is not None and l == (TK, ('currentLine',)) else NotImplemented
            def h_empty(I, n, want):
                l = I.obj_loc(n)
                return int(not txt) if I.st is not None and l == (TK, ('currentLine',)) else NotImplemented
            I = Interp(P, E, {'FileTokenizer::createToken': h_tok, 'std::basic_string::size': h_size, 'std::basic_string::length': h_size, 'std::basic_string::empty': h_empty})
            I.dyn[TK] = 'FileTokenizer'
            I.store((TK, ('linePos',)), 0)
            for k in range(4):
                ch = ord(txt[k]) if k < len(txt) else 0
                I.store((TK, ('currentLine', ('i', k))), ch)
            try: r = I.enter(fid, [], (TK, ()), None)
            except RecursionError: und.append('lexer'); continue
            if len(made) != 1 or not isinstance(made[0][0], int) or not isinstance(made[0][1], int) or r not in (0, 1): und.append('lexer: %s' % sp); continue
            if follow == '' and sp in got and got[sp] != made[0][0] or follow == 'a' and sp in got and got[sp] != made[0][0]:
                res.ob('lexer', False, 'lexer.%s' % sp, '%s (%s:%s): "%s" is read differently depending on what follows' % (P.fn[fid]['name'], P.fn[fid]['file'], P.fn[fid]['line'], sp)); continue
            if made[0][1] != len(sp):
                res.ob('lexer', False, 'lexer.%s' % sp, '%s (%s:%s): the operator "%s" is read as %d characters' % (P.fn[fid]['name'], P.fn[fid]['file'], P.fn[fid]['line'], sp, made[0][1])); continue
            got[sp] = made[0][0]
    back = {}
    for s, v in got.items(): back.setdefault(v, []).append(s)
    for v, ss in back.items():
        if len(ss) > 1: res.ob('lexer', False, 'lexer.same', '%s (%s:%s): the operators %s are read as the same token' % (P.fn[fid]['name'], P.fn[fid]['file'], P.fn[fid]['line'], ' and '.join(ss)))
    out.update(got)
    res.ob('lexer: %d spellings give distinct tokens of the right length' % len(got))
    return out


# ---------------------------------------------------------------- grammar
class Parse(Interp):
    def may_inline(s, fid): return len(s.active) < 250

    def make(s, n):
        t = s.P.ty(n.get('rt', '') or n.get('ty', ''))
        rec = s.P.ty((t.get('targs') or [''])[0]).get('rec')
        if rec == 'ExpressionInternal':
            vs = [s.rv(a) for a in n['args']]
            if s.st is None: return 0
            s.nobj += 1; s.nodes[s.nobj] = vs
            return ('ptr', ('N', s.nobj), ())
        return super().make(n)


def parse(P, E, kinds, call=(), dot=()):
    """(tree, position) the grammar makes of a string of token kinds."""
    POS = (('X', 'tpos'), ())
    end = len(kinds) - 1
    def where(I):
        p = I.load(POS)
        if not isinstance(p, int): raise Unknown('position')
        return p
    def tok(k): return ('LOC', (('X', 'tok'), (('i', min(k, end)),)))
    def h_peek(I, n, want):
        a = I.rv(n['args'][0]) if n['args'] else 0
        if not isinstance(a, int): raise Unknown('peek')
        return tok(where(I) + a)
    def h_next(I, n, want):
        p = where(I); I.store(POS, min(p + 1, end)); return tok(p)
    def h_eat(I, n, want):
        p = where(I); k = I.rv(n['args'][0]) if n['args'] else 1
        if not isinstance(k, int): raise Unknown('eat')
        I.store(POS, min(p + k, end)); return 0
    def h_get(I, n, want): return ('v', ('tokpos', where(I)), None)
    def h_set(I, n, want):
        v = I.rv(n['args'][0])
        if not (isinstance(v, tuple) and v[0] == 'v' and v[1][0] == 'tokpos'): raise Unknown('setPosition')
        I.store(POS, v[1][1]); return 0
    def h_end(I, n, want): return int(where(I) >= end)
    def h_pay(I, n, want):
        l = I.obj_loc(n)
        return ('LOC', (('X', 'pay'), (l[1][0],)))
    def which(I, n):
        l = I.lv(n)
        if I.st is not None and l[0] == ('X', 'pay') and l[1][0][1].__class__ is int: return l[1][0][1]
        v = I.load(l, None)
        if isinstance(v, tuple) and v[0] == 'v' and v[1][0] == 'tok': return v[1][1]
        raise Unknown('name')
    def h_ideq(I, n, want):
        o = n.get('obj') if n.get('obj') is not None else n['args'][0]
        r = int(which(I, o) in dot)
        return r if 'operator==' in n.get('name', '') else 1 - r
    def h_find(I, n, want): return ('v', ('found', int(which(I, n['args'][0]) in call)), None)
    def h_opt(I, n, want):
        v = I.load(I.obj_loc(n), None)
        if isinstance(v, tuple) and v[0] == 'v' and v[1][0] == 'found': return v[1][1]
        return NotImplemented
    hk = {'ExpressionFunctionHandler::find': h_find, 'Identifier::operator==': h_ideq, 'Identifier::operator!=': h_ideq}
    for m, h in (('peekToken', h_peek), ('nextToken', h_next), ('eatToken', h_eat), ('eatTokens', h_eat), ('getPosition', h_get), ('setPosition', h_set), ('atEnd', h_end)): hk['Tokenizer::' + m] = h
    for x in ('intValue', 'floatValue', 'stringValue', 'identifierValue'): hk['Token::' + x] = h_pay
    for x in ('std::optional::operator conversion', 'std::optional::has_value', 'std::optional::operator bool'): hk[x] = h_opt
    cap = []
    def h_exp(I, n, loc):
        if not n['args']: return NotImplemented
        v = I.rv(n['args'][0])
        if I.st is not None: cap.append((v, I.load(POS)))
        return ('v', ('exp',), None)
    hk['Expression::Expression'] = h_exp
    I = Parse(P, E, hk); I.nodes = {}; I.unroll = 1000
    I.store(POS, 0)
    for k, t in enumerate(kinds):
        I.store((('X', 'tok'), (('i', k), 'type')), t)
        I.store((('X', 'pay'), (('i', k),)), ('v', ('tok', k), None))
    fid = [i for i, f in P.fn.items() if f['name'] == 'parseExpression'][0]
    ps = P.fn[fid]['params']
    I.enter(fid, [(ps[0], True, ('ptr', ('X', 'tz'), ()))] + [(p, False, 0) for p in ps[1:]], None, None)
    if I.st is None or len(cap) != 1: raise Unknown('result')
    def tree(v):
        if v == 0: return None
        if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'N':
            vs = I.nodes[v[1][1]]
            if len(vs) == 1 and isinstance(vs[0], tuple): return ('leaf', tree(vs[0]))
            if len(vs) == 1: return ('leaf', vs[0])
            if isinstance(vs[0], int): return ('op', vs[0]) + tuple(tree(x) for x in vs[1:])
            if len(vs) == 2: return ('call', tree(vs[0]), listof(vs[1]))
        if isinstance(v, tuple) and v[0] == 'v' and v[1][0] == 'tok': return v[1][1]
        raise Unknown('node %s' % str(v)[:80])
    def listof(v):
        if isinstance(v, tuple) and v[0] == 'v' and v[1][0] == 'mut' and v[1][1] in ('push_back', 'emplace_back'): return listof(v[1][2]) + (tree(v[1][3][0]),)
        if isinstance(v, tuple) and v[0] == 'v' and v[1][0] == 'empty': return ()
        raise Unknown('list %s' % str(v)[:80])
    t = tree(cap[0][0])
    return t, I.load(POS)


def reference(s):
    """(tree, consumed) of a list of spellings; operands 'n' (number), 'a' (name), 'f' (function name), '.'; None tree: no expression; raises Unknown where nothing is specified."""
    pos = 0
    def peek(): return s[pos] if pos < len(s) else None
    class Fail(Exception): pass
    def primary():
        nonlocal pos
        t = peek()
        if t in ('n', 'a', '.'): pos += 1; return ('leaf', pos - 1)
        if t == 'f':
            if pos + 1 < len(s) and s[pos + 1] == '(':
                at = pos; pos += 2; args = []
                while peek() != ')':
                    if args:
                        if peek() != ',': raise Fail
                        pos += 1
                    args.append(cond())
                pos += 1
                return ('call', at, tuple(args))
            pos += 1; return ('leaf', pos - 1)
        if t == '(':
            pos += 1; e = cond()
            if peek() != ')': raise Fail
            pos += 1; return e
        raise Fail
    def unary():
        nonlocal pos
        t = peek()
        if t in UN:
            pos += 1
            if peek() in UN: raise Unknown('unary chain')
            e = primary()
            return e if t == '+' else ('un', t, e)
        return primary()
    def binary(l):
        nonlocal pos
        if l == len(BIN): return unary()
        e = binary(l + 1)
        while peek() in BIN[l]:
            o = peek(); pos += 1
            e = ('bin', o, e, binary(l + 1))
        return e
    def cond():
        nonlocal pos
        e = binary(0)
        if peek() == '?':
            pos += 1
            a = cond()
            if peek() != ':': raise Fail
            pos += 1
            return ('?:', e, a, cond())
        return e
    try: return cond(), pos
    except Fail: return None, 0


def strings(deep):
    ops = [o for l in BIN for o in l]
    yield ['n']; yield ['a']; yield ['.']; yield ['f']; yield []
    for o in ops:
        yield ['n', o, 'n']; yield ['n', o]; yield [o, ')']
        yield ['(', 'n', o, 'n', ')']
        yield ['(', 'n', o, 'n']
        yield ['n', o, 'n', '?', 'n', ':', 'n']
        yield ['n', '?', 'n', ':', 'n', o, 'n']
        yield ['n', '?', 'n', o, 'n', ':', 'n']
        yield ['f', '(', 'n', o, 'n', ',', 'n', ')', o, 'n']
        yield ['a', o, 'f', '(', 'n', ')']
        for u in UN:
            yield [u, 'n', o, 'n']; yield ['n', o, u, 'n']
            yield [u, '(', 'n', o, 'n', ')']
        for p in ops:
            yield ['n', o, 'n', p, 'n']
            yield ['(', 'n', o, 'n', ')', p, 'n']
            yield ['n', o, '(', 'n', p, 'n', ')']
            yield ['n', o, 'n', p]
            if deep:
                for q in ops: yield ['n', o, 'n', p, 'n', q, 'n']
    for u in UN:
        yield [u, 'n']; yield [u]; yield [u, '(', 'n', ')']; yield [u, 'f', '(', ')']
        yield [u, 'n', '?', u, 'n', ':', u, 'n']
    yield ['n', '?', 'n', ':', 'n']; yield ['n', '?', 'n']; yield ['n', '?']; yield ['n', '?', 'n', ':']; yield ['n', '?', 'n', ',', 'n']
    yield ['n', '?', 'n', ':', 'n', '?', 'n', ':', 'n']
    yield ['n', '?', 'n', '?', 'n', ':', 'n', ':', 'n']
    yield ['f', '(', ')']; yield ['f', '(', 'n', ')']; yield ['f', '(', 'n', ',', 'n', ')']; yield ['f', '(', 'n', ',', 'n', ',', 'n', ')']
    yield ['f', '(', 'n', 'n', ')']; yield ['f', '(', 'n']; yield ['f', '(', 'n', ',']; yield ['f', '(', ',', 'n', ')']
    yield ['f', '(', 'f', '(', 'n', ')', ',', '(', 'n', ')', ')']
    yield ['a', '(', 'n', ')']; yield ['(', ')']; yield ['(', '(', 'n', ')', ')']; yield ['(', 'n', ')', ')']; yield ['n', 'n']; yield [',', 'n']; yield [')']


def grammar(P, E, V, res, und, kind, tier):
    TT = {e['n']: e['v'] for e in P.enums['TokenType']['e']}
    if not any(f['name'] == 'parseExpression' for f in P.fn.values()): und.append('no expression parser'); return []
    num, ide, end = TT.get('Integer'), TT.get('Identifier'), TT.get('Separator')
    if None in (num, ide, end) or any(kind[s] is None for s in NAMES): und.append('token kinds'); return []
    opof = {}; back = {}
    n = 0; u = 0; seen = set()
    f = [f for f in P.fn.values() if f['name'] == 'parseExpression'][0]
    def kinds(s): return [num if t == 'n' else ide if t in ('a', 'f', '.') else kind[t] for t in s] + [end]
    def words(s): return ' '.join({'n': '1', 'a': 'name', 'f': 'func'}.get(t, t) for t in s)
    def same(want, got):
        """Compare, learning which node each operator makes."""
        if want is None or got is None: return want is None and got is None
        if want[0] == 'leaf':
            return got[0] == 'leaf'
        if want[0] == 'call': return got[0] == 'call' and got[1] == want[1] and len(got[2]) == len(want[2]) and all(same(a, b) for a, b in zip(want[2], got[2]))
        if got[0] != 'op': return False
        key = ('?:', 3) if want[0] == '?:' else (want[1], len(want) - 2)
        kids = want[1:] if want[0] == '?:' else want[2:]
        if len(got) - 2 != len(kids): return False
        if opof.setdefault(key, got[1]) != got[1]: return False
        if back.setdefault(got[1], key) != key: return False
        return all(same(a, b) for a, b in zip(kids, got[2:]))
    def leaves(t):
        if t is None: return []
        if t[0] == 'leaf': return [t[1]]
        if t[0] == 'call': return [t[1]] + [x for y in t[2] for x in leaves(y)]
        return [x for y in t[1:] if isinstance(y, tuple) for x in leaves(y)]
    def draw(t):
        if t is None: return 'no expression'
        if t[0] == 'leaf': return '1'
        if t[0] == 'call': return 'func(%s)' % ', '.join(draw(x) for x in t[2])
        if t[0] == '?:': return '(%s ? %s : %s)' % tuple(draw(x) for x in t[1:])
        if t[0] == 'un': return '(%s%s)' % (t[1], draw(t[2]))
        if t[0] == 'bin': return '(%s %s %s)' % (draw(t[2]), t[1], draw(t[3]))
        k = back.get(t[1], ('op%d' % t[1], len(t) - 2))
        if len(t) == 3: return '(%s%s)' % (k[0], draw(t[2]))
        if len(t) == 4: return '(%s %s %s)' % (draw(t[2]), k[0], draw(t[3]))
        return '(%s)' % ' ? '.join(draw(x) for x in t[2:])
    order = sorted(strings(tier == 'thorough'), key=lambda s: (len(s), s))
    for s in order:
        try: want, used = reference(s)
        except Unknown: continue
        n += 1
        try:
            got, pos = parse(P, E, kinds(s), {i for i, t in enumerate(s) if t == 'f'}, {i for i, t in enumerate(s) if t == '.'})
        except (Unknown, RecursionError) as x:
            u += 1; und.append('grammar: %s: %s' % (words(s), x)); continue
        key = None
        if not same(want, got): key, why = 'tree', 'is understood as %s, not as %s' % (draw(got), draw(want))
        elif want is not None and [x for x in leaves(want) if s[x] != '.'] != [x for x in leaves(got) if isinstance(x, int) and (x >= len(s) or s[x] != '.' )][:len([x for x in leaves(want) if s[x] != '.'])] and '.' not in s: key, why = 'operand', 'has its operands exchanged'
        elif isinstance(pos, int) and pos != used: key, why = 'rest', 'leaves the input at token %d instead of %d' % (pos, used)
        if key and key not in seen:
            seen.add(key)
            res.ob('grammar', False, 'grammar.%s' % key, '%s (%s:%s): "%s" %s' % (f['name'], f['file'], f['line'], words(s), why))
    if n: res.ob('grammar: %d strings of token kinds give the tree of the precedence table' % (n - u))
    res.stats['grammar_strings'] = n
    return [(k[0], k[1], v) for k, v in opof.items()]


# ---------------------------------------------------------------- leaves and nodes
def leaves(P, E, V, res, und):
    def run(op, hooks, prep=None):
        return operator(P, E, V, V.OT[op], (), hooks)
    cases = []
    for what in ('none', 'undefined', 'defined'):
        hk = {'SymbolTable::getLabel': lambda I, n, w, what=what: (touch(I, n), 0 if what == 'none' else ('ptr', ('X', 'label'), ()))[1],
              'Label::isDefined': lambda I, n, w, what=what: int(what == 'defined'), 'Label::getValue': lambda I, n, w: ('v', ('op', 0, 'i'), (64, True)), 'Label::getName': lambda I, n, w: ('LOC', (('X', 'name'), ()))}
        cases.append(('Identifier', what, hk))
    cases.append(('MemoryPos', 'position', {'FileManager::getVirtualAddress': lambda I, n, w: ('v', ('op', 0, 'i'), (64, True))}))
    for op, what, hk in cases:
        if op not in V.OT: continue
        def h_value(I, n, w): return ('LOC', (('X', 'ident'), ()))
        hk['ExpressionInternal::valueAs'] = h_value
        try:
            I, r = run(op, hk)
            fs = V.fields(r); dg = I.load((('X', 'diag'), ()))
            for x in (5, -3, M - 1):
                got = settle(V, fs, {('op', 0, 'i'): x})
                want = 'X' if what in ('none', 'undefined') else ('I', x)
                if not agrees(got, want):
                    res.ob('leaf', False, 'leaf.%s' % what, 'evaluate (%s): %s gives %s' % (P.where('ExpressionInternal::evaluate()'), {'none': 'a name that cannot be a label', 'undefined': 'a label without a value', 'defined': 'a label with value %d' % x, 'position': 'the position %d' % x}[what], shown(got))); break
                if want == 'X' and ev(dg, {}) != 2:
                    res.ob('leaf', False, 'leaf.%s' % what, 'evaluate (%s): %s is not reported as an error' % (P.where('ExpressionInternal::evaluate()'), 'an unknown name' if what == 'none' else 'a label without a value')); break
            else: res.ob('leaf: %s' % what)
        except (Unknown, RecursionError, KeyError) as x: und.append('leaf %s: %s' % (what, x))


def touch(I, n):
    for a in n['args']: I.lv(a) if a.get('k') == 'ref' else I.rv(a)


def calls(P, E, V, res, und):
    """A call with the wrong number of arguments or an unknown name is an error."""
    if 'FunctionCall' not in V.OT: return
    for found in (0, 1):
        for lo, hi, n in ((1, 2, 0), (1, 2, 1), (1, 2, 2), (1, 2, 3), (0, 0, 0), (0, 0, 1), (3, 3, 2)):
            ran = []
            def h_exec(I, nd, w):
                ran.append(1); I.nobj += 1; t = ('T', I.nobj)
                V.put(I, (t, ()), 'I', 0); return I.load((t, ()), None)
            def h_opt(I, nd, w): return found
            hk = {'ExpressionFunctionHandler::find': lambda I, nd, w: ('v', ('found', found), None), 'ExpressionInternal::valueAs': lambda I, nd, w: ('LOC', (('X', 'ident'), ())),
                  'ExpressionFunctionHandle::minParams': lambda I, nd, w: lo, 'ExpressionFunctionHandle::maxParams': lambda I, nd, w: hi, 'ExpressionFunctionHandle::execute': h_exec}
            for x in ('std::optional::operator conversion', 'std::optional::has_value', 'std::optional::operator bool'): hk[x] = h_opt
            try:
                I, r = operator(P, E, V, V.OT['FunctionCall'], ('I',) * n, hk)
                got = settle(V, V.fields(r), {('op', 0, 'i'): 7}); dg = ev(I.load((('X', 'diag'), ())), {})
            except (Unknown, RecursionError) as x: und.append('call: %s' % x); return
            ok = found and lo <= n <= hi
            if ok and (got != ('I', 7) or dg) or not ok and (got != 'X' or dg != 2):
                res.ob('call', False, 'call.%d.%d' % (found, ok), 'call of %s with %d arguments where %d to %d are taken: %s, %s' % ('a function' if found else 'an unknown function', n, lo, hi, 'gives ' + shown(got), ('no error', 'a warning', 'an error')[dg])); return
    res.ob('calls: unknown functions and wrong numbers of arguments are errors')


def nodes(P, E, V, res, und):
    """Operands are kept in the order they were given."""
    for fid, f in P.fn.items():
        if f['name'] != 'ExpressionInternal::ExpressionInternal' or not f['params'] or P.ty(f['params'][0]['ty']).get('enum') != 'OperatorType' or len(f['params']) < 3: continue
        I = Interp(P, E, {})
        try: I.enter(fid, [(p, False, ('v', ('kid', k), None)) for k, p in enumerate(f['params'])], (SELF, ()), None)
        except RecursionError: continue
        v = I.load((SELF, ('children',)), None) if I.st is not None else None
        got = []
        while isinstance(v, tuple) and v[0] == 'v' and v[1][0] == 'mut' and v[1][1] in ('push_back', 'emplace_back'):
            got.insert(0, v[1][3][0]); v = v[1][2]
        want = [('v', ('kid', k), None) for k in range(1, len(f['params']))]
        if got and got != want: res.ob('node', False, 'node.order', '%s: the operands of a node are not kept in order' % P.where(fid))
        elif got: res.ob('node keeps its operands in order')


def check(P, res, tier):
    E = CK.effects()
    V = Values(P)
    und = []
    kind = lexer(P, E, res, und)
    chain = grammar(P, E, V, res, und, kind, tier)
    done = {(o, a) for o, a, v in chain}
    named = {('+', 2): 'Add', ('-', 2): 'Sub', ('*', 2): 'Mult', ('/', 2): 'Div', ('%', 2): 'Mod', ('-', 1): 'Neg', ('!', 1): 'LogNot', ('~', 1): 'BitNot', ('<<', 2): 'LeftShift', ('>>', 2): 'RightShift', ('<', 2): 'Less', ('>', 2): 'Greater', ('<=', 2): 'LessEqual', ('>=', 2): 'GreaterEqual', ('==', 2): 'Equal', ('!=', 2): 'NotEqual', ('&', 2): 'BitAnd', ('^', 2): 'Xor', ('|', 2): 'BitOr', ('&&', 2): 'LogAnd', ('||', 2): 'LogOr', ('?:', 3): 'TertiaryIf'}
    for k, nm in named.items():
        if k not in done and nm in V.OT: chain.append((k[0], k[1], V.OT[nm]))
    operators(P, E, V, res, und, [c for c in chain if c[1] < 3])
    for o, a, v in chain:
        if a == 3: conditional(P, E, V, res, und, v)
    leaves(P, E, V, res, und)
    calls(P, E, V, res, und)
    nodes(P, E, V, res, und)
    res.stats['operators'] = len(chain)
    res.need(len(chain), 15, 'operators')
    if und: res.stats['undecided'] = sorted(set(und))[:30]; res.stats['undecided_count'] = len(und)
