"""Things the value-level checks share: directive tables, byte views of memory, standard hooks."""
from prog import strip, tail, walk
from front import Broken
import terms as T
from absint import Interp


def const_of(n):
    v = n.get('cv')
    if v is None: return None
    return int(v[1:]) if isinstance(v, str) else v


def directives(P):
    """[(table, name, handler id, flags)] of every directive table."""
    out = []
    for q, v in P.vars.items():
        if 'init' not in v or 'DirectiveEntry' not in v.get('ty', ''): continue
        for n in walk(v['init']):
            if n.get('k') == 'ctor' and n.get('name') == 'std::pair::pair' and len(n['args']) == 2:
                s = next((x['v'] for x in walk(n['args'][0]) if x.get('k') == 'str'), None)
                e = next((x for x in walk(n['args'][1]) if x.get('k') == 'init' and len(x['a']) >= 2), None)
                if s is None or e is None: continue
                fn = next((x['fn'] for x in walk(e['a'][0]) if x.get('k') == 'ref' and x.get('dk') == 'func'), None)
                fl = const_of(e['a'][1])
                if fn and fl is not None: out.append((q, s, fn, fl))
    return out


def bytes_at(I, p, n):
    """The n bytes a pointer value denotes in the current state (little-endian host), each a list of 8 bits; None if unknown."""
    if not (isinstance(p, tuple) and p[0] == 'ptr'): return None
    root, path = p[1], p[2]
    out = []
    base = path; first = 0
    if path and isinstance(path[-1], tuple) and path[-1][0] == 'i' and isinstance(path[-1][1], int):
        base = path[:-1]; first = path[-1][1]
        i = first
        while len(out) < n:
            v = I.load((root, base + (('i', i),)), None)
            w = width(I, v, (root, base + (('i', i),)))
            if w is None: return None
            b = T.bits(v, w, I.st.rng)
            out += [b[k:k + 8] for k in range(0, w, 8)]
            i += 1
        return out[:n] if len(out) >= n else None
    v = I.load((root, path), None)
    w = I.width.get((root, path)) or 8 * n
    if w < 8 * n: return None
    b = T.bits(v, w, I.st.rng)
    return [b[k:k + 8] for k in range(0, 8 * n, 8)]


def width(I, v, loc):
    w = I.width.get(loc)
    if w: return w
    if isinstance(v, tuple) and v[0] == 'v' and isinstance(v[2], tuple): return v[2][0]
    w = I.elemw.get((loc[0], loc[1][:-1]))
    return w


def unions_of(ev):
    """All events of a gated trace, flattened (gates and loops opened)."""
    for e in ev:
        if e[0] == 'gate':
            yield from unions_of(e[2]); yield from unions_of(e[3])
        elif e[0] == 'loop':
            d = e[1]
            if d['body']: yield from unions_of(d['body'])
            for b in d['breaks']: yield from unions_of(b)
        else: yield e


def emit(I, *e):
    if I.st is not None: I.st.ev = I.st.ev + (tuple(e),)
