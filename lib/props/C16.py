"""C16: built-in expression functions give the documented values."""
import itertools, re
import check as CK
import phases as F
import terms as T
import isa
from absint import Interp
from props import C11 as X
from props.C11 import Unknown, Trap, ev, i64, M

RULE = """abstract interpretation of every built-in expression function found in the function tables under its documented name, for every number of arguments the table lets through and every combination of argument types, with symbolic arguments and symbolic file, label and output state: result type and value term are compared with the documented function at boundary values; argument types and states for which the function is not defined must give no value, and the arity in the table must be the documented one"""
ASSUMPTIONS = ['C++ library functions (std::string, <cmath>, <regex>, streams) do what the standard says', 'the machine armips runs on is little endian (multi-byte read functions)']
LEVEL = 'other'

PAR = ('X', 'params')


def trunc(x): return int(x)


def s16(x): return X.wrap(x, 16, True)


def num2(a): return float(a)


def mm(f):
    def g(*v):
        if any(isinstance(x, str) for x in v): return 'X'
        if all(isinstance(x, int) for x in v): return ('I', f(v))
        return ('F', f([float(x) for x in v]))
    return g


def substr(s, a, n):
    if not (isinstance(s, str) and isinstance(a, int) and isinstance(n, int)): return 'X'
    if a < 0 or a > len(s): return 'err'
    if n < 0: return None
    return ('S', [s[a:a + n]])


def find(s, t, a=0):
    if not (isinstance(s, str) and isinstance(t, str) and isinstance(a, int)): return 'X'
    if a < 0: return None
    return ('I', s.find(t, a) if a <= len(s) else -1)


def rfind(s, t, a=-1):
    if not (isinstance(s, str) and isinstance(t, str) and isinstance(a, int)): return 'X'
    if a < -1: return None
    return ('I', s.rfind(t) if a == -1 else s.rfind(t, 0, a + len(t)))


def tohex(v, d=8):
    if not isinstance(v, int) or not isinstance(d, int): return 'X'
    if not 0 <= d <= 40: return None
    return ('S', ['%0*X' % (d, v & (2 * M - 1))])


def rx(f):
    def g(s, p):
        if not (isinstance(s, str) and isinstance(p, str)): return 'X'
        return ('I', int(bool(f(p, s))))
    return g


def extract(s, p, i=0):
    if not (isinstance(s, str) and isinstance(p, str) and isinstance(i, int)): return 'X'
    m = re.search(p, s)
    if not m or not 0 <= i <= m.re.groups: return 'err'
    return ('S', [m.group(i) or ''])


def only(ty, f):
    return lambda *v: f(*v) if all(type(x) in ty for x in v) else 'X'


# name -> (fewest arguments, most, function of the values)
DOC = {
    'int': (1, 1, only((int, float), lambda x: ('I', int(x)) if isinstance(x, int) or abs(x) < 2.0 ** 62 else None)),
    'round': (1, 1, only((int, float), lambda x: ('I', x if isinstance(x, int) else X.rnd(x)))),
    'float': (1, 1, only((int, float), lambda x: ('F', float(x)))),
    'frac': (1, 1, lambda x: ('F', X.math.modf(x)[0]) if isinstance(x, float) else None if isinstance(x, int) else 'X'),
    'abs': (1, 1, only((int, float), lambda x: None if x == -M else ('I' if isinstance(x, int) else 'F', abs(x)))),
    'min': (1, None, mm(min)), 'max': (1, None, mm(max)),
    'tostring': (1, 1, lambda x: ('S', [('num', x)]) if X.num(x) else ('S', [x])),
    'tohex': (1, 2, tohex),
    'strlen': (1, 1, only((str,), lambda s: ('I', len(s)))),
    'substr': (3, 3, substr), 'find': (2, 3, find), 'rfind': (2, 3, rfind),
    'regex_match': (2, 2, rx(re.fullmatch)), 'regex_search': (2, 2, rx(re.search)), 'regex_extract': (2, 3, extract),
    'hi': (1, 1, only((int,), lambda x: ('I', ((x >> 16) + ((x >> 15) & 1)) & 0xFFFF))),
    'lo': (1, 1, only((int,), lambda x: ('I', s16(x)))),
}
READ = {'readbyte': (8, False), 'readu8': (8, False), 'readu16': (16, False), 'readu32': (32, False), 'readu64': (64, False), 'reads8': (8, True), 'reads16': (16, True), 'reads32': (32, True), 'reads64': (64, True)}
LABEL = {'defined': (1, 1), 'org': (0, 1), 'orga': (0, 1), 'headersize': (0, 1)}
STATE = {'endianness': (0, 0), 'fileexists': (1, 1), 'outputname': (0, 0), 'version': (0, 0), 'filesize': (1, 1), 'readascii': (1, 3), 'isarm': (0, 0), 'isthumb': (0, 0)}

GRID = {'I': [0, 1, -1, 2, 3, 5, 8, 16, 0x7FFF, 0x8000, 0xFFFF, 0x12348000, 0x1FFFF8000, -32769, 1 << 40, M - 1, -M + 1, -M],
        'F': [0.0, 0.5, -0.5, 1.5, -1.5, 2.25, -2.75, 2.5, 1e10, 0.1, -123456789.125],
        'S': ['', 'a', 'ab', 'abcabc', 'b', 'bc', 'c+', 'x(a|b)*']}
SMALL = {'I': [-2, -1, 0, 1, 2, 3, 4, 6, 7, 100, M - 1], 'F': GRID['F'][:6], 'S': ['', 'a', 'ab', 'abcabc', 'bc', 'ca', '(a)(b)?', 'b.']}


def sarg(f):
    def g(o, v):
        if not isinstance(o, str): raise Unknown('text')
        return f(o, v)
    return g


def lfind(s, v):
    t = v[0]; a = v[1] if len(v) > 1 else 0
    if not isinstance(t, str): raise Unknown('find')
    a &= (1 << 64) - 1
    r = s.find(t, a) if a <= len(s) else -1
    return r if r >= 0 else (1 << 64) - 1


def lrfind(s, v):
    t = v[0]; a = (v[1] if len(v) > 1 else -1) & ((1 << 64) - 1)
    if not isinstance(t, str): raise Unknown('rfind')
    r = s.rfind(t) if a >= len(s) else s.rfind(t, 0, a + len(t))
    return r if r >= 0 else (1 << 64) - 1


def lsub(s, v):
    a = v[0] & ((1 << 64) - 1); n = (v[1] if len(v) > 1 else -1) & ((1 << 64) - 1)
    if a > len(s): raise Trap('throws an exception nobody catches')
    return s[a:a + n]


def regex(f):
    def g(o, v):
        if len(v) > 2 and v[2] == ('const', 'std::regex_constants::match_default'): v = v[:2]
        if len(v) != 2 or not all(isinstance(x, str) for x in v): raise Unknown('regex')
        return int(bool(f(v[1], v[0])))
    return g


def group(o, v):
    m = re.search(v[1], v[0])
    if not m or not 0 <= v[2] <= m.re.groups: raise Unknown('group')
    return m.group(v[2]) or ''


def groups(o, v):
    m = re.search(v[1], v[0])
    return m.re.groups + 1 if m else 0


LIB = {'rx.group': group, 'rx.size': groups, 'std::basic_regex': lambda o, v: v[0] if len(v) == 1 or v[1] == ('const', 'std::basic_regex::ECMAScript') else (_ for _ in ()).throw(Unknown('regex flags')), 'std::fpos': lambda o, v: v[0],
       'std::basic_string::find': sarg(lfind), 'std::basic_string::rfind': sarg(lrfind), 'std::basic_string::substr': sarg(lsub),
       'size': lambda o, v: len(o) if isinstance(o, str) else (_ for _ in ()).throw(Unknown('size')),
       'std::regex_match': regex(re.fullmatch), 'std::regex_search': regex(re.search)}


def tables(P, E):
    """name -> row of every function table."""
    out = {}
    I = Interp(P, E, {})
    for q, v in sorted(P.vars.items()):
        t = P.ty(v.get('ty', ''))
        if 'init' not in v or v['init'].get('k') != 'init': continue
        for r in v['init'].get('a', ()):
            if not isinstance(r, dict) or r.get('k') != 'init' or len(r.get('a', ())) < 5: continue
            a = r['a']
            name = a[0].get('v') if a[0].get('k') == 'str' else None
            fn = next((x for x in subs(a[1]) if x.get('dk') == 'func'), None)
            if name is None or fn is None or 'ExpFuncSafety' not in a[4].get('ty', ''): continue
            out[name] = {'fn': fn['fn'], 'ta': fn.get('ta'), 'min': a[2].get('cv'), 'max': a[3].get('cv'), 'safety': a[4].get('cv'), 'line': a[0].get('l'), 'file': v['file'], 'table': q}
    return out


def subs(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)): yield from subs(v)
    elif isinstance(n, list):
        for v in n: yield from subs(v)


class Run(Interp):
    def may_inline(s, fid): return len(s.active) < 40 and s.active.count(fid) < 2


def body(P, row):
    """Function record of a table row (the instantiation it names)."""
    if row['ta'] and row['fn'] + '|' + row['ta'] in P.insts: return P.insts[row['fn'] + '|' + row['ta']]
    return P.fn.get(row['fn'])


def start(P, E, V, row, tys, hooks, size=None):
    f = body(P, row)
    n = len(tys)
    def h_size(I, nd, want):
        l = I.obj_loc(nd)
        return n if I.st is not None and l == (PAR, ()) else NotImplemented
    def h_empty(I, nd, want):
        l = I.obj_loc(nd)
        return int(n == 0) if I.st is not None and l == (PAR, ()) else NotImplemented
    def h_lim(I, nd, want):
        t = P.ty(nd.get('rt', '') or nd.get('ty', ''))
        w = I.aty(nd.get('rt', '') or nd.get('ty', ''))
        low = nd['name'].endswith('::min') or nd['name'].endswith('::lowest')
        if w == 'f': return ('flt', repr((-1 if nd['name'].endswith('lowest') else 1) * (2.2250738585072014e-308 if nd['name'].endswith('::min') else 1.7976931348623157e308)))
        if isinstance(w, tuple): return (-(1 << (w[0] - 1)) if w[1] else 0) if low else (1 << (w[0] - w[1])) - 1
        return NotImplemented
    def h_search(I, nd, want):
        if len(nd['args']) != 3 and not (len(nd['args']) > 3): return NotImplemented
        l = I.lv(nd['args'][1])
        if 'match_results' not in nd['args'][1].get('ty', '') and 'smatch' not in nd['args'][1].get('ty', ''): return NotImplemented
        a = I.rv(nd['args'][0]); b = I.rv(nd['args'][2])
        if I.st is None: return 0
        I.store(l, ('v', ('match', a, b), None))
        return ('v', ('app', 'std::regex_search', None, (a, b)), (1, False))
    def h_msize(I, nd, want):
        v = I.load(I.obj_loc(nd), None)
        if isinstance(v, tuple) and v[0] == 'v' and v[1][0] == 'match': return ('v', ('app', 'rx.size', None, v[1][1:]), (64, False))
        return NotImplemented
    def h_mget(I, nd, want):
        o = nd.get('obj') if nd.get('obj') is not None else nd['args'][0]
        i = I.rv(nd['args'][-1]) if nd['args'] else 0
        v = I.load(I.lv(o), None)
        if isinstance(v, tuple) and v[0] == 'v' and v[1][0] == 'match': return ('LOC', I.temp(('v', ('app', 'rx.group', None, v[1][1:] + (i,)), None)))
        return NotImplemented
    def h_self(I, nd, want): return I.load(I.obj_loc(nd), None)
    hk = X.diag_hooks({'std::vector::size': h_size, 'std::vector::empty': h_empty, 'std::regex_search': h_search, 'std::match_results::size': h_msize, 'std::match_results::operator[]': h_mget, 'std::match_results::str': h_mget, 'std::sub_match::str': h_self})
    for x in ('max', 'min', 'lowest'): hk['std::numeric_limits::' + x] = h_lim
    hk.update(hooks)
    I = Run(P, E, hk); I.unroll = 100
    I.store((('X', 'diag'), ()), 0)
    return I, f


def call(P, E, V, row, tys, hooks=()):
    """Interpret a function on arguments of the given types."""
    I, f = start(P, E, V, row, tys, dict(hooks))
    for k, t in enumerate(tys): V.put(I, (PAR, (('i', k),)), t, k)
    vals = [(f['params'][0], True, ('ptr', ('X', 'fname'), ())), (f['params'][1], True, ('ptr', PAR, ()))]
    r = enter(I, row, f, vals)
    if I.st is None: raise Unknown('no result')
    return I, r


def enter(I, row, f, vals):
    fid = row['fn']
    old = I.P.fn[fid]
    I.P.fn[fid] = f
    try: return I.enter(fid, vals, None, None)
    finally: I.P.fn[fid] = old


def judge(P, V, res, und, name, row, tys, I, r, want, grid, extra=None, atoms=()):
    """Compare the result term with the documented value on the grid; one obligation."""
    f = P.fn[row['fn']]
    where = '%s (%s:%s)' % (f['name'], f['file'], f['line'])
    what = '%s(%s)' % (name, ', '.join(X.TY[t].lower() for t in tys))
    try:
        fs = V.fields(r); dg = I.load((('X', 'diag'), ()))
    except Unknown as x: und.append('%s: %s' % (what, x)); return
    u = None; npts = 0
    for vs in itertools.product(*[grid[t] for t in tys]):
        for more in (atoms or ({},)):
            env = dict(more)
            for k, v in enumerate(vs): env[('op', k, 'i' if isinstance(v, int) else 'f' if isinstance(v, float) else 's')] = v
            w = want(vs, more)
            if w is None: continue
            npts += 1
            ex = '%s(%s)%s' % (name, ', '.join(X.lit(v) for v in vs), extra(more) if extra else '')
            bad = None
            try:
                got = X.settle(V, fs, env, w in ('X', 'err'))
                if w in ('X', 'err'):
                    if got != 'X': bad = '%s gives a value although it has none' % ex
                    elif w == 'err' and not ev(dg, env): bad = '%s is not reported' % ex
                elif not agrees(got, w): bad = '%s gives %s, not %s' % (ex, X.shown(got), X.shown(w))
                elif ev(dg, env): bad = '%s is reported as a problem' % ex
            except Trap as x: bad = '%s %s' % (ex, x)
            except (Unknown, OverflowError, re.error, ZeroDivisionError) as x: u = str(x) or 'value'
            if bad: res.ob(what, False, '%s.%s' % (name, ''.join(tys)), '%s: %s' % (where, bad)); return npts
    if u: und.append('%s: %s' % (what, u))
    else: res.ob('%s: value and result type' % what)
    return npts


def agrees(got, w):
    if w[0] == 'S' and len(w[1]) == 1 and not isinstance(w[1][0], str):
        if got == 'X' or got[0] != 'S': return False
        n = w[1][0][1]
        if isinstance(n, int): return got[1] == str(n)
        try: return X.close(float(got[1]), n)
        except ValueError: return False
    return X.agrees(got, w)


# ---------------------------------------------------------------- groups
def plain(P, E, V, res, und, T_, tier):
    n = 0
    for name, (lo, hi, fn) in DOC.items():
        row = T_.get(name)
        if row is None: continue
        arity(P, res, name, row, lo, hi)
        for k in range(lo, min(hi or 3, 3) + 1):
            alltys = list(itertools.product('IFS', repeat=k))
            for tys in alltys:
                if k == 3 and sum(t == 'I' for t in tys) < 1 and name not in ('min', 'max'): continue
                try: I, r = call(P, E, V, row, tys)
                except (Unknown, RecursionError) as x: und.append('%s/%s: %s' % (name, ''.join(tys), x)); continue
                grid = GRID if k == 1 else SMALL
                n += judge(P, V, res, und, name, row, tys, I, r, lambda vs, more: fn(*vs), grid) or 0
    res.stats['boundary_points'] = n


def arity(P, res, name, row, lo, hi):
    at = '%s:%s' % (row['file'], row['line'])
    if row['min'] is None or row['max'] is None: return
    if row['min'] != lo or (hi is not None and row['max'] != hi) or (hi is None and row['max'] < 16):
        res.ob('arity', False, 'arity.%s' % name, '%s: %s takes %s to %s arguments, not %s to %s' % (at, name, row['min'], row['max'], lo, hi if hi is not None else 'any number of'))
    else: res.ob('%s: number of arguments' % name)


def reads(P, E, V, res, und, T_):
    """Binary reads: the bytes at the position, zero or sign extended."""
    n = 0
    for name, (w, sg) in READ.items():
        row = T_.get(name)
        if row is None: continue
        arity(P, res, name, row, 1, 2)
        for tys in (('S',), ('S', 'I'), ('I',), ('S', 'S'), ('F', 'I')):
            info = {}
            def cnt(I, k):
                c = I.load((('X', k), ())); 
                if not isinstance(c, int): c = 9
                I.store((('X', k), ()), c + 1); return c
            def h_open(I, nd, want): return ('v', ('st', 'open'), 'b')
            def h_fail(I, nd, want):
                return ('v', ('st', 'short'), 'b') if I.load((('X', 'readdone'), ())) == 1 else ('v', ('st', 'badpos'), 'b')
            def h_eof(I, nd, want): return ('v', ('st', 'short'), 'b') if I.load((('X', 'readdone'), ())) == 1 else 0
            def h_good(I, nd, want): return T.bnot(h_fail(I, nd, want))
            def h_seek(I, nd, want):
                v = I.rv(nd['args'][0])
                if I.st is not None: I.store((('X', 'seek'), ()), v)
                return 0
            def h_pos(I, nd, want):
                vs = [I.rv(a) for a in nd['args']]
                return vs[0] if vs else 0
            def h_read(I, nd, want):
                p = I.rv(nd['args'][0]); c = I.rv(nd['args'][1])
                if I.st is None: return 0
                if not (isinstance(p, tuple) and p[0] == 'ptr'): raise Unknown('read')
                loc = (p[1], p[2])
                ty = (I.width.get(loc) if hasattr(I, 'width') else None)
                info['count'] = c
                I.store((('X', 'readdone'), ()), 1)
                I.store(loc, ('v', ('bytes', c), None))
                return 0
            def h_path(I, nd, want):
                for a in nd['args']: I.lv(a)
                return ('v', ('path',), None)
            hk = {'std::basic_ifstream::is_open': h_open, 'std::basic_ios::fail': h_fail, 'std::basic_ios::eof': h_eof, 'std::basic_ios::good': h_good, 'std::basic_ios::bad': lambda I, nd, w_: 0,
                  'std::basic_ios::operator!': h_fail, 'std::basic_ios::operator bool': h_good, 'std::basic_istream::seekg': h_seek, 'std::basic_istream::read': h_read, 'std::fpos::fpos': lambda I, nd, loc: NotImplemented, 'getFullPathName': h_path}
            try:
                I, f = start(P, E, V, row, tys, hk)
                I.store((('X', 'readdone'), ()), 0); I.store((('X', 'seek'), ()), 0)
                for k, t in enumerate(tys): V.put(I, (PAR, (('i', k),)), t, k)
                vals = [(f['params'][0], True, ('ptr', ('X', 'fname'), ())), (f['params'][1], True, ('ptr', PAR, ()))]
                r = enter(I, row, f, vals)
                if I.st is None: raise Unknown('no result')
                seek = I.load((('X', 'seek'), ()))
            except (Unknown, RecursionError) as x: und.append('%s: %s' % (name, x)); continue
            c = info.get('count')
            at = '%s (%s:%s) as %s' % (f['name'], f['file'], f['line'], name)
            if tys in (('S',), ('S', 'I')) and isinstance(c, int) and c * 8 != w:
                res.ob(name, False, '%s.size' % name, '%s reads %d bytes, not %d' % (at, c, w // 8)); continue
            if tys in (('S',), ('S', 'I')) and c is None:
                und.append('%s: no read' % name); continue
            atoms = []
            for o in (0, 1):
                for b in (0, 1):
                    for s in (0, 1):
                        for raw in ({0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, 0x5AA55AA5A55AA55A & ((1 << w) - 1)} if (o, b, s) == (1, 0, 0) else (0,)):
                            atoms.append({('st', 'open'): o, ('st', 'badpos'): b, ('st', 'short'): s, ('bytes', c): raw, 'raw': raw})
            def want(vs, m, w=w, sg=sg):
                if not isinstance(vs[0], str) or len(vs) > 1 and not isinstance(vs[1], int): return 'X'
                if len(vs) > 1 and vs[1] < 0: return None
                if not m[('st', 'open')] or m[('st', 'badpos')] or m[('st', 'short')]: return 'err'
                return ('I', i64(X.wrap(m['raw'], w, sg)))
            def extra(m): return ' of %s' % ('a file that cannot be opened' if not m[('st', 'open')] else 'a position outside the file' if m[('st', 'badpos')] else 'a file that ends there' if m[('st', 'short')] else 'the value 0x%X' % m['raw'])
            n += judge(P, V, res, und, name, row, tys, I, r, want, {'I': [0, 4, 1 << 33], 'F': [1.5], 'S': ['x']}, extra, atoms) or 0
            if tys in (('S',), ('S', 'I')):
                # position
                try:
                    bad = None
                    for p in (0, 7, 1 << 33):
                        env = {('op', 1, 'i'): p, ('st', 'open'): 1, ('st', 'badpos'): 0, ('st', 'short'): 0, ('bytes', c): 0}
                        if ev(seek, env) != (p if len(tys) > 1 else 0): bad = p
                    if bad is not None: res.ob(name, False, '%s.pos' % name, '%s reads from another position than the given one' % at)
                    else: res.ob('%s/%d: position' % (name, len(tys)))
                except (Unknown, Trap) as x: und.append('%s: position %s %s' % (name, x, seek))
    res.stats['read_points'] = n


def labels(P, E, V, res, und, T_):
    for name, (lo, hi) in LABEL.items():
        row = T_.get(name)
        if row is None: continue
        arity(P, res, name, row, lo, hi)
        for k in range(lo, hi + 1):
            hk = {'Label::isDefined': lambda I, nd, w: ('v', ('st', 'def'), 'b'), 'Label::hasPhysicalValue': lambda I, nd, w: ('v', ('st', 'phys'), 'b'),
                  'Label::getValue': lambda I, nd, w: ('v', ('st', 'val'), (64, True)), 'Label::getPhysicalValue': lambda I, nd, w: ('v', ('st', 'pval'), (64, True)), 'Label::getName': lambda I, nd, w: ('LOC', (('X', 'lname'), ())),
                  'FileManager::hasOpenFile': lambda I, nd, w: ('v', ('st', 'open'), 'b'), 'FileManager::getVirtualAddress': lambda I, nd, w: ('v', ('st', 'virt'), (64, True)),
                  'FileManager::getPhysicalAddress': lambda I, nd, w: ('v', ('st', 'phy'), (64, True)), 'FileManager::getHeaderSize': lambda I, nd, w: ('v', ('st', 'hdr'), (64, True))}
            try:
                I, f = start(P, E, V, row, ('L',) * k, hk)
                for i in range(k): I.store((PAR, (('i', i),)), ('ptr', ('X', 'label'), ()))
                vals = [(f['params'][0], True, ('ptr', ('X', 'fname'), ())), (f['params'][1], True, ('ptr', PAR, ()))]
                r = enter(I, row, f, vals)
                if I.st is None: raise Unknown('no result')
            except (Unknown, RecursionError) as x: und.append('%s: %s' % (name, x)); continue
            atoms = []
            for d in (0, 1):
                for p in (0, 1):
                    if p and not d: continue
                    for o in (0, 1):
                        atoms.append({('st', 'def'): d, ('st', 'phys'): p, ('st', 'open'): o, ('st', 'val'): 0x8000100, ('st', 'pval'): 0x170, ('st', 'virt'): 0x9000220, ('st', 'phy'): 0x230, ('st', 'hdr'): 0x8FFFFF0})
            def want(vs, m):
                g = lambda x: m[('st', x)]
                if name == 'defined': return ('I', g('def'))
                if not k: return ('I', g({'org': 'virt', 'orga': 'phy', 'headersize': 'hdr'}[name])) if g('open') else 'err'
                if name == 'org': return ('I', g('val')) if g('def') else 'err'
                if not g('phys'): return 'err'
                return ('I', g('pval') if name == 'orga' else g('val') - g('pval'))
            def extra(m): return (' of %s' % ('an undefined label' if not m[('st', 'def')] else 'a label without file position' if not m[('st', 'phys')] else 'a label at 0x8000100, file position 0x170') if k else ' %s' % ('in a file' if m[('st', 'open')] else 'without a file'))
            judgeL(P, V, res, und, name, row, k, I, r, want, extra, atoms)


def judgeL(P, V, res, und, name, row, k, I, r, want, extra, atoms):
    f = P.fn[row['fn']]
    what = '%s(%s)' % (name, 'label' if k else '')
    try: fs = V.fields(r); dg = I.load((('X', 'diag'), ()))
    except Unknown as x: und.append('%s: %s' % (what, x)); return
    for m in atoms:
        w = want((), m)
        try:
            got = X.settle(V, fs, m, w == 'err')
            bad = None
            if w == 'err':
                if got != 'X' or not ev(dg, m): bad = 'is not an error'
            elif not X.agrees(got, w): bad = 'gives %s, not %s' % (X.shown(got), X.shown(w))
            elif ev(dg, m): bad = 'is reported as a problem'
        except Trap as x: bad = str(x)
        except Unknown as x: und.append('%s: %s' % (what, x)); return
        if bad: res.ob(what, False, '%s.%d' % (name, k), '%s (%s:%s): %s%s %s' % (f['name'], f['file'], f['line'], what, extra(m), bad)); return
    res.ob('%s: value' % what)


def states(P, E, V, res, und, T_):
    for name, (lo, hi) in STATE.items():
        if name in T_: arity(P, res, name, T_[name], lo, hi)
    EN = {e['n']: e['v'] for e in P.enums.get('Endianness', {'e': []})['e']}
    def simple(name, tys, hooks, want, extra, atoms):
        row = T_.get(name)
        if row is None: return
        try:
            I, r = call(P, E, V, row, tys, hooks)
        except (Unknown, RecursionError) as x: und.append('%s: %s' % (name, x)); return
        judge(P, V, res, und, name, row, tys, I, r, want, {'I': [0, 5], 'F': [1.5], 'S': ['x']}, extra, atoms)
    if len(EN) == 2 and 'Big' in EN:
        simple('endianness', (), {'FileManager::getEndianness': lambda I, nd, w: ('v', ('st', 'end'), (32, True))},
               lambda vs, m: ('S', ['big' if m[('st', 'end')] == EN['Big'] else 'little']), lambda m: ' when the byte order is %d' % m[('st', 'end')], [{('st', 'end'): v} for v in EN.values()])
    for tys in (('S',), ('I',)):
        simple('fileexists', tys, {'std::filesystem::exists': lambda I, nd, w: ('v', ('st', 'ex'), 'b'), 'fs::exists': lambda I, nd, w: ('v', ('st', 'ex'), 'b'), 'getFullPathName': lambda I, nd, w: ('v', ('path',), None)},
               lambda vs, m: ('I', m[('st', 'ex')]) if isinstance(vs[0], str) else 'X', lambda m: ' of a file that %s' % ('exists' if m[('st', 'ex')] else 'does not exist'), [{('st', 'ex'): 0}, {('st', 'ex'): 1}])
        simple('filesize', tys, {'std::filesystem::file_size': lambda I, nd, w: ('v', ('st', 'fs'), (64, False)), 'getFullPathName': lambda I, nd, w: ('v', ('path',), None)},
               lambda vs, m: ('I', m[('st', 'fs')]) if isinstance(vs[0], str) else 'X', lambda m: ' of a file of %d bytes' % m[('st', 'fs')], [{('st', 'fs'): x} for x in (0, 1, 7, 1 << 33)])
    for nm in ('isarm', 'isthumb'):
        simple(nm, (), {'Architecture::current': lambda I, nd, w: ('LOC', (('G', 'Arm'), ())), 'CArmArchitecture::GetThumbMode': lambda I, nd, w: ('v', ('st', 'thumb'), 'b')},
               lambda vs, m: ('I', m[('st', 'thumb')] if nm == 'isthumb' else 1 - m[('st', 'thumb')]), lambda m: ' in %s mode' % ('THUMB' if m[('st', 'thumb')] else 'ARM'), [{('st', 'thumb'): 0}, {('st', 'thumb'): 1}])


def check(P, res, tier):
    E = CK.effects()
    V = X.Values(P)
    und = []
    T_ = tables(P, E)
    X.EXT.update(LIB)
    plain(P, E, V, res, und, T_, tier)
    reads(P, E, V, res, und, T_)
    labels(P, E, V, res, und, T_)
    states(P, E, V, res, und, T_)
    missing = [n for n in list(DOC) + list(READ) + list(LABEL) + list(STATE) if n not in T_ and not (n.startswith('regex') and not any(k.startswith('regex') for k in T_))]
    for n in missing: res.ob('documented functions', False, 'missing.%s' % n, 'the documented function %s is in no function table' % n)
    res.stats['functions'] = len(T_)
    res.need(len(T_), 20, 'functions in the function tables')
    if und: res.stats['undecided'] = sorted(set(und))[:30]; res.stats['undecided_count'] = len(und)
