"""Reference encodings: evaluation of value terms, witnesses, comparison, storage."""
import ast, json, os
from front import VERIF
import terms as T

M64 = (1 << 64) - 1


def wrap(v, w, sg):
    v &= (1 << w) - 1
    if sg and v >> (w - 1): v -= 1 << w
    return v


def evalt(t, env, memo=None):
    """Value of a term under a valuation of its atoms; None if it depends on something else."""
    if not isinstance(t, tuple): return t if isinstance(t, int) else None
    if memo is None: memo = {}
    k = id(t)
    if k in memo: return memo[k][1]
    r = _ev(t, env, memo)
    memo[k] = (t, r)
    return r


def _ev(t, env, m):
    h = t[0]
    if h == 'v': return env.get(t[1])
    if h == 'lin':
        s = t[1]
        for u, c in t[2]:
            x = evalt(u, env, m)
            if x is None: return None
            s += x * c
        return s
    if h == 'ite':
        c = evalt(t[1], env, m)
        if c is None:
            a, b = evalt(t[2], env, m), evalt(t[3], env, m)
            return a if a is not None and a == b else None
        return evalt(t[2] if c else t[3], env, m)
    if h == 'wrap':
        x = evalt(t[3], env, m)
        return None if x is None else wrap(x, t[1], t[2])
    if h == 'le0' or h == 'eq0' or h == 'not' or h == 'abs':
        x = evalt(t[1], env, m)
        if x is None: return None
        return int(x <= 0) if h == 'le0' else int(x == 0) if h == 'eq0' else int(not x) if h == 'not' else abs(x)
    if h in ('and', 'or'):
        a, b = evalt(t[1], env, m), evalt(t[2], env, m)
        if h == 'and':
            if a == 0 or b == 0: return 0
            return None if a is None or b is None else 1
        if a or b: return 1
        return None if a is None or b is None else 0
    if h in ('&', '|', '^', '*', '/', '%', '>>', '<<'):
        a, b = evalt(t[1], env, m), evalt(t[2], env, m)
        if h == '&' and (a == 0 or b == 0): return 0
        if a is None or b is None: return None
        if h == '&': return a & b
        if h == '|': return a | b
        if h == '^': return a ^ b
        if h == '*': return a * b
        if h in ('/', '%'):
            if b == 0: return None
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            return q if h == '/' else a - q * b
        if b < 0 or b > 200: return None
        return a >> b if h == '>>' else a << b
    return None


def killed(rec, env):
    """1 if some reported error applies to the valuation, 0 if none, None if unknown."""
    un = False; m = {}
    for why, pc in rec['kills']:
        ok = 1
        for c, pol in pc:
            x = evalt(c, env, m)
            if x is None: ok = None if ok else ok
            elif bool(x) != bool(pol): ok = 0; break
        if ok == 1: return 1
        if ok is None: un = True
    return None if un else 0


def words(ev, env):
    """[(width, value)] written under a valuation, None if unknown."""
    out = []; m = {}
    for e in ev:
        if e[0] == 'word':
            v = evalt(e[2], env, m)
            if v is None: return None
            out.append((e[1], v & ((1 << e[1]) - 1)))
        elif e[0] == 'pool':
            v = evalt(e[1], env, m)
            if v is None: return None
            out.append(('pool', v & 0xffffffff))
        elif e[0] == 'gate':
            c = evalt(e[1], env, m)
            if c is None: return None
            s = words(e[2] if c else e[3], env)
            if s is None: return None
            out += s
        elif e[0] == 'loop': return None
    return out


def consts(t, out):
    """Numbers a condition compares with."""
    if not isinstance(t, tuple): return
    if t[0] == 'lin' and isinstance(t[1], int):
        ks = {c for u, c in t[2]}
        for k in ks:
            if k: out.add(-t[1] // k)
    for x in t[1:]:
        if isinstance(x, tuple): consts(x, out)


PCS = (0x08000000, 0x80001000, 0x02000004, 0x08000002, 0x80400008)
BASE = tuple(sorted({0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 31, 32, 33, 63, 64, 100, 127, 128, 252, 254, 255, 256, 508, 1020, 1024, 4095, 4096, 0x7fff, 0x8000, 0xffff, 0x10000, 0x3fc00, 0xff000000, 0x1234, 0x12340,
              -1, -2, -3, -4, -5, -8, -16, -20, -32, -64, -100, -128, -129, -255, -256, -4095, -4096, -0x8000, -0x8001, -0xffff, 0x12345678, 0x7ffffffc}))


def domain(op, rng, extra):
    kind = op[0]; a = op[2][0]
    if kind == 'imm': return None
    lo, hi = rng.get(a, (None, None)) if a in rng else (None, None)
    if a[2] == 'b': return (0, 1)
    if kind == 'rlist': return (0, 1, 2, 0x80, 0xff, 0x4000, 0x8000, 0x5555, 0xaaaa, 0xffff, 0x40ff & op[1][0] if op[1] else 0x40ff)
    if lo is None: return (0, 1)
    vals = {lo, hi, (lo + hi) // 2}
    k = 1
    while k <= hi:
        if k >= lo: vals.add(k)
        k *= 2
    if hi - lo <= 40: vals |= set(range(int(lo), int(hi) + 1)) if hi - lo <= 16 else set()
    vals.add(hi - 1 if hi - 1 >= lo else hi)
    return tuple(sorted(v for v in vals if v in (lo, hi) or lo <= v <= hi))


def critical(recs):
    """Values next to a number that a condition or an encoded word compares with."""
    cs = set()
    for r in recs:
        for why, pc in r['kills']:
            for c, pol in pc: consts(c, cs)
        for e in r['ev']:
            if e[0] == 'word' and T.size(e[2]) < 4000: consts(e[2], cs)
    return {c + d for c in cs for d in (-4, -1, 0, 1, 4) if abs(c) < 1 << 40}


def base(rec, pc, pick):
    """A valuation with every operand at the end of its domain."""
    e = {'pc': pc}
    for o in rec['ops']:
        d = domain(o, rec['rng'], ())
        e[o[2][0][1]] = d[pick] if d is not None else 4
        for t in o[2][1:]: e[t[1]] = rec['rng'].get(t, (0, 0))[0]
    return e


def valuations(recs, limit=260):
    """Operand valuations that separate the cases of the given records of one form."""
    rec = recs[0]
    cs = critical(recs)
    ops = rec['ops']
    rng = {}
    for r in recs: rng.update(r['rng'])
    doms = []
    for op in ops:
        d = domain(op, rng, cs)
        doms.append(d)
    n = 0; out = []
    atoms = [op[2][0] for op in ops]
    types = [(op[2][1], rng.get(op[2][1], (0, 0))[0]) for op in ops if len(op[2]) > 1]
    seed = 12345
    def rnd(k):
        nonlocal seed
        seed = (seed * 1103515245 + 12345) & 0x7fffffff
        return (seed >> 8) % k
    imm = sorted(set(BASE) | cs)
    def env(vals, pc):
        e = {a[1]: v for a, v in zip(atoms, vals)}
        for a, v in types: e[a[1]] = v
        e['pc'] = pc
        return e
    for pc in PCS:
        immd = imm + [pc + 4 + x for x in imm] + [pc + 8 + x for x in imm] if any(o[0] == 'imm' for o in ops) else [0]
        ds = [d if d is not None else immd for d in doms]
        mid = [d[len(d) // 2] if dd is not None else 4 for d, dd in zip(ds, doms)]
        base2 = [d[0] if dd is not None else pc + 8 for d, dd in zip(ds, doms)]
        base3 = [d[-1] if dd is not None else 8 for d, dd in zip(ds, doms)]
        for b in (mid, base2, base3):
            for i, d in enumerate(ds):
                for v in d: yield env(b[:i] + [v] + b[i + 1:], pc)
        for k in range(120):
            yield env([d[rnd(len(d))] for d in ds], pc)
        if not ops: yield env([], pc)


def compare(cur, ref):
    """None if the same on everything examined, else a text with the first difference.
    Second result: True if equality is certain."""
    if cur['ev'] == ref['ev']: return None, True
    if samebits(cur, ref): return None, True
    un = unset(cur['ev'])
    for env in valuations([ref, cur]):
        kr, kc = killed(ref, env), killed(cur, env)
        if kr != 0 or kc != 0: continue
        a, b = words(ref['ev'], env), words(cur['ev'], env)
        if a is not None and b is None and un:
            # depends on a member that was never given a value
            x, y = (words(cur['ev'], {**env, **{k: v for k in un}}) for v in (0, -1))
            if x is not None and y is not None and x != y: return 'operands %s: emits %s or %s depending on %s, which was never set; the instruction set says %s' % (showenv(env), showw(x), showw(y), ', '.join('.'.join(str(z) for z in k[2]) for k in un), showw(a)), True
        if a is None or b is None: continue
        if a != b: return 'operands %s: emits %s, the instruction set says %s' % (showenv(env), showw(b), showw(a)), True
    return None, False


def unset(t, out=None, seen=None):
    """Members of objects made while parsing that are read without having been set."""
    if out is None: out = []; seen = set()
    if not isinstance(t, tuple) or id(t) in seen: return out
    seen.add(id(t))
    if len(t) == 3 and t[0] == 'in' and isinstance(t[1], tuple) and t[1][:1] and t[1][0] in ('T', 'N', 'L') and t not in out: out.append(t)
    for x in t: unset(x, out, seen)
    return out


def accepts(cur, ref):
    """First operand value on which acceptance differs: (text, True if cur accepts)."""
    if tuple(cur['kills']) == tuple(ref['kills']): return None
    for env in valuations([ref, cur]):
        kr, kc = killed(ref, env), killed(cur, env)
        if kr is None or kc is None or kr == kc: continue
        return env, kc == 0
    return None


def samebits(a, b):
    if len(a['ev']) != len(b['ev']): return False
    for x, y in zip(a['ev'], b['ev']):
        if x == y: continue
        if x[0] != 'word' or y[0] != 'word' or x[1] != y[1]: return False
        if T.bits(x[2], x[1], a['allrng']) != T.bits(y[2], y[1], b['allrng']): return False
    return True


def showenv(env):
    return ', '.join('%s=%s' % ('op%d' % k[1] if isinstance(k, tuple) and k[0] == 'op' else k if isinstance(k, str) else str(k), hex(v)) for k, v in env.items())


def showw(ws): return ' '.join(('pool:%x' % v) if w == 'pool' else '%0*x' % (w // 4, v) for w, v in ws)


# ------------------------------------------------------------------ storage
# One line per distinct tuple: elements are constants or @line.  Key lines: K <flags> <row> <line> <key>.
def load(name):
    p = os.path.join(VERIF, 'ref', name + '.txt')
    if not os.path.exists(p): return None
    raw = []; keys = []
    for line in open(p):
        line = line.rstrip('\n')
        if line.startswith('K '):
            _, fl, row, i, k = line.split(' ', 4)
            keys.append((k, fl, int(row), int(i)))
        else: raw.append(line)
    memo = {}
    def get(i):
        if i in memo: return memo[i]
        out = []
        for x in split(raw[i]):
            if x[0] == '@': out.append(get(int(x[1:])))
            else: out.append(lit(x))
        memo[i] = tuple(out)
        return memo[i]
    return keys, lambda i: unpack(get(i))


_lit = {'inf': float('inf'), '-inf': float('-inf')}


def lit(x):
    if x not in _lit: _lit[x] = ast.literal_eval(x)
    return _lit[x]


def split(s):
    return s.split('\x1f') if s else []


FIELDS = ('ev', 'ops', 'rng', 'allrng', 'kills')


def pack(r):
    return tuple(tuple(sorted(r[k].items(), key=repr)) if isinstance(r[k], dict) else tuple(r[k]) for k in FIELDS)


def unpack(t):
    d = dict(zip(FIELDS, t))
    d['rng'] = dict(d['rng']); d['allrng'] = dict(d['allrng'])
    return d


def save(name, items):
    """items: [(key, flags, row, record)]"""
    import sys
    sys.setrecursionlimit(20000)
    idx = {}; raw = []; keys = []
    def put(t):
        els = []
        for x in t:
            if isinstance(x, (tuple, list)): els.append('@%d' % put(tuple(x)))
            elif x is None or isinstance(x, (int, float, str)): els.append(repr(x))
            else: raise TypeError(repr(x)[:200])
        s = '\x1f'.join(els)
        if s not in idx: idx[s] = len(raw); raw.append(s)
        return idx[s]
    for k, fl, row, r in items: keys.append('K %s %d %d %s' % (fl, row, put(pack(r)), k))
    os.makedirs(os.path.join(VERIF, 'ref'), exist_ok=True)
    with open(os.path.join(VERIF, 'ref', name + '.txt'), 'w') as f:
        for s in raw + keys: f.write(s + '\n')
