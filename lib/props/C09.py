from collections import defaultdict
import check as CK
import isaref
from props import C10

RULE = """abstract interpretation of the parser, layout check and encoder for every opcode row and variant with unknown operands: the conditions under which an error is reported and the bits written are obtained as functions of the operand; no two different operand values may be accepted with the same bits unless they are the signed and the unsigned reading of one field, and the set of accepted values must be that of the reference (values that fit are accepted, others rejected)"""
ASSUMPTIONS = ['an operand value is taken as a 32-bit number, as the assembler does by design', 'jump targets of MIPS j and jal are taken modulo 256 MB, as the instruction does',
               'differences are searched on the boundary values of every comparison either version makes and of every field width']
LEVEL = 'other'


def check(P, res, tier):
    E = CK.effects()
    full = tier == 'thorough'
    for arch in C10.ARCHS:
        ref, get, rorder, allkeys = C10.load(arch, full)
        cur, und, order = C10.collect(C10.forms(P, E, arch, full))
        hit = [k for k in ref if k in cur]
        res.stats[arch + '_forms'] = len(hit)
        if len(hit) * 2 < len(ref):
            res.stats[arch + '_skipped'] = 'only %d of %d reference forms recognised' % (len(hit), len(ref)); continue
        seen = set(); jobs = []
        for k in hit:
            rec = cur[k][1]
            if not any(o[0] == 'imm' for o in rec['ops']): continue
            sig = (cur[k][0], k.split('|', 2)[2])
            jobs.append((k, rec, ref[k], full or sig not in seen, arch)); seen.add(sig)
        res.stats[arch + '_injective'] = len(seen)
        for k, d, c in pmap(jobs, get):
            v, m, s = k.split('|', 2)
            nm = C10.name(arch, k); row = cur[k][0]
            res.ob('%s accepts exactly the values of the reference' % nm, d is None, 'accept/%s/%s/%s' % (arch, m, s), '%s, table row %d: %s' % (nm, row, d))
            if c is not False: res.ob('%s never writes the same bits for two values' % nm, c is None, 'cut/%s/%s/%s' % (arch, m, s), '%s, table row %d: %s' % (nm, row, c))
    res.need(len(res.obligations), 1, 'obligations_examined')


_get = None


def work(j):
    k, rec, i, inj, arch = j
    d = isaref.accepts(rec, _get(i))
    if d is not None:
        env, acc = d
        w = isaref.words(rec['ev'], env) if acc else None
        d = 'operands %s are %s%s' % (isaref.showenv(env), 'accepted, although the value does not fit' if acc else 'rejected, although the value fits (%s)' % '; '.join(reason(rec, env)), ', emitted as ' + isaref.showw(w) if w else '')
    return k, d, cut(rec, arch, k.endswith(' pool')) if inj else False


def pmap(jobs, get):
    global _get
    import multiprocessing as mp, os
    _get = get
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as pool: return pool.map(work, jobs, chunksize=8)


def reason(rec, env):
    for why, pc in rec['kills']:
        if all(isaref.evalt(c, env) is not None and bool(isaref.evalt(c, env)) == bool(pol) for c, pol in pc): yield why


def u32(v): return v & 0xffffffff


def s32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def cut(rec, arch, pool=False):
    """Two accepted values of an operand with the same output."""
    ops = rec['ops']; cs = isaref.critical([rec])
    vals = sorted(set(isaref.BASE) | cs)
    for i, o in enumerate(ops):
        if o[0] != 'imm': continue
        a = o[2][0][1]
        for pc in (0x08000000, 0x80001000):
            for pick in (0, -1):
                groups = defaultdict(dict)
                env = isaref.base(rec, pc, pick)
                for x in vals + [pc + 4 + x for x in vals] + [pc + 8 + x for x in vals]:
                    if pool and i == len(ops) - 1 and x & 3: continue  # the pool's own address: aligned
                    env = dict(env); env[a] = x
                    if isaref.killed(rec, env) != 0: continue
                    w = isaref.words(rec['ev'], env)
                    if w is None: continue
                    x = s32(x)
                    g = groups[tuple(w)]
                    for y, e in g.items():
                        if x != y and not alias(x, y, arch): return 'operands %s and %s are both accepted and emitted as %s' % (isaref.showenv(e), isaref.showenv(env), isaref.showw(w))
                    g[x] = env
    return None


def alias(x, y, arch):
    """The signed and the unsigned reading of one field (also where the instruction holds the negative), or the two spellings of an ARM software interrupt."""
    for p, q in ((x, y), (-x, -y)):
        lo, hi = min(p, q), max(p, q)
        d = hi - lo
        if lo < 0 <= hi and d & (d - 1) == 0 and hi < d and lo >= -d // 2: return True
    return arch == 'arm' and min(x, y) in range(0, 256) and max(x, y) == min(x, y) << 16
