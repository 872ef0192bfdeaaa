"""Value numbers of the abstract interpreter.

A value is a mathematical integer (python int), or a tuple:
  ('v', key, (width, signed) | 'b' | 'f' | None)   an atom: something unknown, named by key
  ('lin', c, ((t, k), ...))                  c + sum k*t
  ('&'|'|'|'^'|'*'|'/'|'%'|'>>'|'<<', a, b)
  ('wrap', w, sg, a)                         a reduced to a w-bit (un)signed number
  ('abs', a)
  ('ite', c, a, b)                           gated value
  booleans: 0, 1, atoms of type 'b', ('le0', e), ('eq0', e), ('not', b), ('and', a, b), ('or', a, b)
  ('ptr', root, path)   ('str', s)   ('flt', x)   ('agg', base, ((path, value), ...))
Machine arithmetic is expressed with explicit wraps, so two values are equal numbers iff their
normal forms are equal (up to the case distinctions in 'ite')."""

INF = float('inf')
BOOLOPS = ('le0', 'eq0', 'not', 'and', 'or')


def is_bool(t):
    if isinstance(t, int): return t in (0, 1)
    return t[0] in BOOLOPS or (t[0] == 'v' and t[2] == 'b') or (t[0] == 'ite' and is_bool(t[2]) and is_bool(t[3]))


_rk = {}


def rk(t):
    """Stable ordering key."""
    r = _rk.get(t)
    if r is None:
        r = _rk[t] = repr(t)
    return r


def lin(c, parts):
    d = {}
    for t, k in parts:
        if k == 0: continue
        if isinstance(t, int): c += t * k
        elif t[0] == 'lin':
            c += t[1] * k
            for u, j in t[2]: d[u] = d.get(u, 0) + j * k
        else: d[t] = d.get(t, 0) + k
    items = [(t, k) for t, k in d.items() if k]
    if not items: return c
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    items.sort(key=lambda x: rk(x[0]))
    return ('lin', c, tuple(items))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    g = dist(lambda x, y: add(x, y), a, b)
    if g is not None: return g
    return lin(0, ((a, 1), (b, 1)))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    g = dist(lambda x, y: sub(x, y), a, b)
    if g is not None: return g
    return lin(0, ((a, 1), (b, -1)))


def neg(a): return sub(0, a)


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(b, int): a, b = b, a
    if isinstance(a, int):
        if a == 0: return 0
        if b[0] == 'ite': return ite(b[1], mul(a, b[2]), mul(a, b[3]))
        return lin(0, ((b, a),))
    if rk(b) < rk(a): a, b = b, a
    return ('*', a, b)


def dist(f, a, b):
    """Push a binary operation with a constant (or a value gated alike) into a gated value."""
    if isinstance(a, tuple) and a[0] == 'ite' and size(a) <= 200:
        if isinstance(b, tuple) and b[0] == 'ite' and b[1] == a[1]: return ite(a[1], f(a[2], b[2]), f(a[3], b[3]))
        if isinstance(b, int): return ite(a[1], f(a[2], b), f(a[3], b))
    if isinstance(b, tuple) and b[0] == 'ite' and isinstance(a, int) and size(b) <= 200:
        return ite(b[1], f(a, b[2]), f(a, b[3]))
    return None


_sz = {}


def size(t):
    if not isinstance(t, tuple): return 1
    r = _sz.get(t)
    if r is None:
        r = _sz[t] = 1 + sum(size(x) for x in t)
    return r


def ite(c, a, b):
    if isinstance(c, int): return a if c else b
    if a == b: return a
    if c[0] == 'not': return ite(c[1], b, a)
    if a == 1 and b == 0 and is_bool(c): return c
    if a == 0 and b == 1 and is_bool(c): return bnot(c)
    if isinstance(a, tuple) and a[0] == 'ite' and a[1] == c: a = a[2]
    if isinstance(b, tuple) and b[0] == 'ite' and b[1] == c: b = b[3]
    if a == b: return a
    if is_bool(a) and is_bool(b):
        if a == 1: return bor(c, b)
        if a == 0: return band(bnot(c), b)
        if b == 0: return band(c, a)
        if b == 1: return bor(bnot(c), a)
    return ('ite', c, a, b)


def bnot(c):
    if isinstance(c, int): return 0 if c else 1
    if c[0] == 'not': return c[1]
    if c[0] == 'le0': return le0(sub(1, c[1]))
    if c[0] == 'and': return bor(bnot(c[1]), bnot(c[2]))
    if c[0] == 'or': return band(bnot(c[1]), bnot(c[2]))
    return ('not', c)


def band(a, b):
    if isinstance(a, int): return b if a else 0
    if isinstance(b, int): return a if b else 0
    if a == b: return a
    if a == bnot(b): return 0
    return ('and', a, b)


def bor(a, b):
    if isinstance(a, int): return 1 if a else b
    if isinstance(b, int): return 1 if b else a
    if a == b: return a
    if a == bnot(b): return 1
    return ('or', a, b)


def le0(e):
    if isinstance(e, int): return 1 if e <= 0 else 0
    if isinstance(e, tuple) and e[0] == 'ite': return ite(e[1], le0(e[2]), le0(e[3]))
    if isinstance(e, tuple) and e[0] == 'ptr': return 0
    # divide by the common factor
    if e[0] == 'lin':
        from math import gcd
        g = 0
        for t, k in e[2]: g = gcd(g, abs(k))
        if g > 1:
            # sum k t <= -c  <=>  sum (k/g) t <= floor(-c/g)
            e = lin(-((-e[1]) // g), [(t, k // g) for t, k in e[2]])
    return ('le0', e)


def le(a, b): return le0(sub(a, b))
def lt(a, b): return le0(add(sub(a, b), 1))


def eq0(e):
    if isinstance(e, int): return 1 if e == 0 else 0
    if isinstance(e, float): return 1 if e == 0 else 0
    if e[0] == 'ite': return ite(e[1], eq0(e[2]), eq0(e[3]))
    if e[0] in ('ptr', 'str'): return 0
    if is_bool(e): return bnot(e)
    if e[0] == 'lin':
        from math import gcd
        g = abs(e[1])
        for t, k in e[2]: g = gcd(g, abs(k))
        s = -1 if e[2][0][1] < 0 else 1
        if g > 1 or s < 0:
            g = max(g, 1) * s
            e = lin(e[1] // g, [(t, k // g) for t, k in e[2]])
        if isinstance(e, tuple) and e[0] == 'lin' and len(e[2]) == 1 and is_bool(e[2][0][0]):
            t, k = e[2][0]
            # c + k*bool == 0
            if e[1] + k == 0: return t
            if e[1] == 0: return bnot(t)
            return 0
    return ('eq0', e)


def eq(a, b):
    if a == b: return 1
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == 'ptr' and b[0] == 'ptr': return 0
        if a[0] == 'str' and b[0] == 'str': return 0
        if a[0] == 'ite' : return ite(a[1], eq(a[2], b), eq(a[3], b))
        if b[0] == 'ite' : return ite(b[1], eq(a, b[2]), eq(a, b[3]))
        if 'ptr' in (a[0], b[0]) or 'str' in (a[0], b[0]) or 'flt' in (a[0], b[0]): return ('v', ('same',) + tuple(sorted((a, b), key=rk)), 'b')
    if isinstance(a, tuple) and a[0] in ('ptr', 'str') and b == 0: return 0
    if isinstance(b, tuple) and b[0] in ('ptr', 'str') and a == 0: return 0
    if isinstance(a, tuple) and a[0] == 'agg' or isinstance(b, tuple) and b[0] == 'agg': return ('v', ('same', a, b), 'b')
    return eq0(sub(a, b))


def truth(t):
    """C truth value of a term."""
    if isinstance(t, int): return 1 if t else 0
    if is_bool(t): return t
    if t[0] == 'ite': return ite(t[1], truth(t[2]), truth(t[3]))
    if t[0] == 'flt': return 1 if t[1] else 0
    return bnot(eq0(t))


def lit(c):
    """(base, polarity) of a boolean term."""
    pol = True
    while c[0] == 'not': c = c[1]; pol = not pol
    if c[0] == 'le0':
        o = sub(1, c[1])
        o = le0(o)[1]
        if rk(o) < rk(c[1]): return ('le0', o), not pol
    return c, pol


def atoms(t, out=None):
    if out is None: out = set()
    if isinstance(t, tuple):
        if t and t[0] == 'v': out.add(t)
        else:
            for x in t: atoms(x, out)
    return out


def subst(t, f, memo=None):
    """Rebuild a term, replacing sub-terms for which f returns not None."""
    if memo is None: memo = {}
    if not isinstance(t, tuple) or not t: return t
    k = t
    if k in memo: return memo[k]
    r = f(t)
    if r is None:
        op = t[0]
        if op == 'v':
            key = t[1]
            r = t
            if isinstance(key, tuple) and key and key[0] in ('app', 'fld', 'mut', 'float', 'toint', 'same'):
                nk = tuple(subst(x, f, memo) if isinstance(x, tuple) else x for x in key)
                if nk != key: r = ('v', nk, t[2])
        elif op == 'lin': r = lin(t[1], [(subst(x, f, memo), c) for x, c in t[2]])
        elif op == 'ite': r = ite(subst(t[1], f, memo), subst(t[2], f, memo), subst(t[3], f, memo))
        elif op == 'not': r = bnot(subst(t[1], f, memo))
        elif op == 'and': r = band(subst(t[1], f, memo), subst(t[2], f, memo))
        elif op == 'or': r = bor(subst(t[1], f, memo), subst(t[2], f, memo))
        elif op == 'le0': r = le0(subst(t[1], f, memo))
        elif op == 'eq0': r = eq0(subst(t[1], f, memo))
        elif op == 'wrap': r = wrap(t[1], t[2], subst(t[3], f, memo))
        elif op == 'abs': r = absv(subst(t[1], f, memo))
        elif op in ('&', '|', '^', '*', '/', '%', '>>', '<<'):
            r = binop(op, subst(t[1], f, memo), subst(t[2], f, memo))
        elif op in ('ptr', 'str', 'flt'): r = t
        elif op == 'agg': r = ('agg', subst(t[1], f, memo), tuple((p, subst(v, f, memo)) for p, v in t[2]))
        else: r = tuple(subst(x, f, memo) for x in t)
    memo[k] = r
    return r


# ---------------------------------------------------------------- ranges
def tyrange(ty):
    if ty == 'b': return (0, 1)
    if isinstance(ty, tuple):
        w, sg = ty
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    return (-INF, INF)


def rng(t, R=None):
    """Interval of a term; R maps atoms (or any sub-term) to known intervals."""
    if isinstance(t, int): return (t, t)
    if not isinstance(t, tuple): return (-INF, INF)
    k = R.get(t) if R else None
    r = _rng(t, R)
    if k: r = (max(r[0], k[0]), min(r[1], k[1]))
    return r


def _rng(t, R):
    op = t[0]
    if op == 'v': return tyrange(t[2])
    if op == 'lin':
        lo = hi = t[1]
        for x, k in t[2]:
            a, b = rng(x, R)
            if k > 0: lo += a * k; hi += b * k
            else: lo += b * k; hi += a * k
        return (lo, hi)
    if op == 'wrap':
        a = rng(t[3], R); b = tyrange((t[1], t[2]))
        if b[0] <= a[0] and a[1] <= b[1]: return a
        return b
    if op == 'ite':
        a = rng(t[2], R); b = rng(t[3], R)
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op in BOOLOPS: return (0, 1)
    if op == 'abs':
        a, b = rng(t[1], R)
        if a >= 0: return (a, b)
        return (0 if b >= 0 else -b, max(-a, b))
    if op == '&':
        a = rng(t[1], R); b = rng(t[2], R)
        if a[0] >= 0 and b[0] >= 0: return (0, min(a[1], b[1]))
        if a[0] >= 0: return (0, a[1])
        if b[0] >= 0: return (0, b[1])
        return (min(a[0], b[0]) if min(a[0], b[0]) == -INF else -(1 << int(-min(a[0], b[0])).bit_length()), max(a[1], b[1]))
    if op in ('|', '^'):
        a = rng(t[1], R); b = rng(t[2], R)
        if a[0] >= 0 and b[0] >= 0 and a[1] < INF and b[1] < INF:
            return (max(a[0], b[0]) if op == '|' else 0, (1 << max(int(a[1]).bit_length(), int(b[1]).bit_length())) - 1)
        if min(a[0], b[0]) > -INF and max(a[1], b[1]) < INF:
            n = max(int(max(abs(a[0]), abs(a[1]))).bit_length(), int(max(abs(b[0]), abs(b[1]))).bit_length())
            return (-(1 << n), (1 << n) - 1)
        return (-INF, INF)
    if op == '>>' and isinstance(t[2], int):
        a, b = rng(t[1], R)
        return (a if a == -INF else int(a) >> t[2], b if b == INF else int(b) >> t[2])
    if op == '%' and isinstance(t[2], int) and t[2] != 0:
        a, b = rng(t[1], R); m = abs(t[2]) - 1
        return (0 if a >= 0 else -m, m if b > 0 else 0)
    if op == '/' and isinstance(t[2], int) and t[2] > 0:
        a, b = rng(t[1], R)
        f = lambda x: x if x in (INF, -INF) else (int(x) // t[2] if x >= 0 else -(int(-x) // t[2]))
        return (f(a), f(b))
    if op == '*':
        a = rng(t[1], R); b = rng(t[2], R)
        if INF in (a[1], b[1]) or -INF in (a[0], b[0]): return (-INF, INF)
        c = [x * y for x in a for y in b]
        return (min(c), max(c))
    return (-INF, INF)


def wrapc(w, sg, x):
    x &= (1 << w) - 1
    if sg and x >> (w - 1): x -= 1 << w
    return x


def wrap(w, sg, x, R=None):
    if isinstance(x, int): return wrapc(w, sg, x)
    if not isinstance(x, tuple) or x[0] in ('ptr', 'str', 'agg'): return x
    if x[0] == 'ite' and size(x) < 300: return ite(x[1], wrap(w, sg, x[2], R), wrap(w, sg, x[3], R))
    a, b = rng(x, R); lo, hi = tyrange((w, sg))
    if lo <= a and b <= hi: return x
    if x[0] == 'flt': return ('v', ('toint', x, w, sg), (w, sg))
    # an inner wrap at least as wide is irrelevant
    if x[0] == 'wrap' and x[1] >= w: return wrap(w, sg, x[3], R)
    if x[0] == 'lin':
        parts = []; ch = False
        for t, k in x[2]:
            if isinstance(t, tuple) and t[0] == 'wrap' and t[1] >= w: parts.append((t[3], k)); ch = True
            else: parts.append((t, k))
        c = wrapc(w, True, x[1])
        if ch or c != x[1]: 
            y = lin(c, parts)
            if y != x: return wrap(w, sg, y, R)
    return ('wrap', w, sg, x)


def absv(a):
    if isinstance(a, int): return abs(a)
    if a[0] == 'ite': return ite(a[1], absv(a[2]), absv(a[3]))
    lo, hi = rng(a)
    if lo >= 0: return a
    if hi <= 0: return neg(a)
    return ('abs', a)


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(op, a, b, R=None):
    """Exact integer operation (no wrap)."""
    if op == '+': return add(a, b)
    if op == '-': return sub(a, b)
    if op == '*': return mul(a, b)
    if isinstance(a, int) and isinstance(b, int):
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        if op == '<<': return a << b if 0 <= b < 256 else ('v', ('shl?', a, b), None)
        if op == '>>': return a >> b if b >= 0 else ('v', ('shr?', a, b), None)
        if op == '/': return cdiv(a, b) if b else ('v', ('div0', a), None)
        if op == '%': return a - cdiv(a, b) * b if b else ('v', ('div0', a), None)
    g = dist(lambda x, y: binop(op, x, y, R), a, b)
    if g is not None: return g
    if op == '<<':
        if isinstance(b, int) and 0 <= b < 256: return mul(a, 1 << b)
        return ('<<', a, b)
    if op == '>>':
        if b == 0: return a
        if isinstance(b, int) and isinstance(a, tuple) and a[0] == 'lin' and all(k % (1 << b) == 0 for t, k in a[2]):
            return lin(a[1] >> b, [(t, k >> b) for t, k in a[2]])
        if isinstance(b, int) and isinstance(a, tuple) and a[0] == '>>' and isinstance(a[2], int): return ('>>', a[1], a[2] + b)
        return ('>>', a, b)
    if op == '&':
        if isinstance(a, int): a, b = b, a
        if b == 0: return 0
        if b == -1: return a
        if isinstance(b, int) and b > 0 and (b & (b + 1)) == 0:
            # low bit mask: same as reduction to that many bits
            return wrap(b.bit_length(), False, a, R)
        if isinstance(b, int) and isinstance(a, tuple) and a[0] == '&' and isinstance(a[2], int): return binop('&', a[1], a[2] & b, R)
        if not isinstance(b, int) and rk(b) < rk(a): a, b = b, a
        return ('&', a, b)
    if op in ('|', '^'):
        if isinstance(a, int): a, b = b, a
        if b == 0: return a
        if a == b: return a if op == '|' else 0
        if op == '^' and b == -1: return sub(-1, a)
        if isinstance(b, int) and isinstance(a, tuple) and a[0] == op and isinstance(a[2], int):
            return binop(op, a[1], a[2] | b if op == '|' else a[2] ^ b)
        if not isinstance(b, int) and rk(b) < rk(a): a, b = b, a
        return (op, a, b)
    if op == '/':
        if b == 1: return a
        return ('/', a, b)
    if op == '%':
        if b == 1: return 0
        if isinstance(b, int) and b > 0 and (b & (b - 1)) == 0 and rng(a, R)[0] >= 0: return binop('&', a, b - 1, R)
        return ('%', a, b)
    raise ValueError(op)


# ---------------------------------------------------------------- bits
def bits(t, W, R=None, memo=None):
    """Per-bit provenance of the low W bits of a term: each bit is 0, 1, or (atom-term, bit number) / ('g', cond, b1, b0)."""
    if memo is None: memo = {}
    key = (t, W)
    if key in memo: return memo[key]
    memo[key] = r = _bits(t, W, R, memo)
    return r


def _ext(b, W, sg):
    if len(b) >= W: return b[:W]
    return b + [b[-1] if sg else 0] * (W - len(b))


def _atom(t, W, R):
    lo, hi = rng(t, R)
    if lo >= 0 and hi < INF:
        n = int(hi).bit_length()
        return [(t, i) for i in range(min(n, W))] + [0] * max(0, W - n)
    if lo > -INF and hi < INF:
        n = max(int(abs(lo) - 1 if lo < 0 else lo).bit_length(), int(hi).bit_length() if hi > 0 else 0) + 1
        b = [(t, i) for i in range(n)]
        return _ext(b, W, True)
    return [(t, i) for i in range(W)]


def _bits(t, W, R, memo):
    if isinstance(t, int): return [(t >> i) & 1 for i in range(W)]
    op = t[0]
    if op == 'ite':
        a = bits(t[2], W, R, memo); b = bits(t[3], W, R, memo)
        return [x if x == y else gate(t[1], x, y) for x, y in zip(a, b)]
    if op == 'wrap':
        n = t[1]
        b = bits(t[3], min(n, W), R, memo)
        if len(b) < n: return b
        return _ext(b, W, t[2])
    if op in ('&', '|', '^'):
        a = bits(t[1], W, R, memo); b = bits(t[2], W, R, memo)
        out = []
        for x, y in zip(a, b):
            out.append(bitop(op, x, y))
        return out
    if op == '>>' and isinstance(t[2], int):
        return bits(t[1], W + t[2], R, memo)[t[2]:]
    if op == 'lin':
        # shifts of parts that do not overlap; a constant part that does not overlap either
        parts = []
        ok = True
        for x, k in t[2]:
            if k > 0 and k & (k - 1) == 0:
                s = k.bit_length() - 1
                b = [0] * min(s, W) + bits(x, max(W - s, 0), R, memo)
                lo, hi = rng(x, R)
                parts.append((b, lo >= 0))
            else: ok = False
        if ok and len(parts) == 1 and t[1] == 0: return parts[0][0]
        if ok:
            c = [(t[1] >> i) & 1 for i in range(W)]
            acc = c
            for b, nn in parts:
                if any(x != 0 and y != 0 for x, y in zip(acc, b)): ok = False; break
                acc = [x if y == 0 else y for x, y in zip(acc, b)]
            if ok: return acc
        # low zero bits shared by all parts
        z = W
        for x, k in t[2]: z = min(z, (k & -k).bit_length() - 1)
        if t[1]: z = min(z, (t[1] & -t[1]).bit_length() - 1)
        if z > 0:
            y = lin(t[1] >> z, [(x, k >> z) for x, k in t[2]])
            return [0] * z + bits(y, W - z, R, memo)
        return _atom(t, W, R)
    if op in BOOLOPS: return [(t, 0)] + [0] * (W - 1)
    if op == '<<': return [(t, i) for i in range(W)]
    return _atom(t, W, R)


def gate(c, x, y):
    if x == 1 and y == 0: return (c, 0)
    if isinstance(c, tuple) and c[0] == 'not': return gate(c[1], y, x)
    return ('g', c, x, y)


def bitop(op, x, y):
    if op == '&':
        if x == 0 or y == 0: return 0
        if x == 1: return y
        if y == 1 or x == y: return x
    elif op == '|':
        if x == 1 or y == 1: return 1
        if x == 0: return y
        if y == 0 or x == y: return x
    else:
        if x == 0: return y
        if y == 0: return x
        if x == y: return 0
        if x in (0, 1) and y in (0, 1): return x ^ y
        if x == 1: return ('n', y) if y[0] != 'n' else y[1]
        if y == 1: return ('n', x) if x[0] != 'n' else x[1]
    return (op,) + tuple(sorted((x, y), key=rk))
