from collections import defaultdict
from front import Broken
import check as CK
import isa, isaref, leaf
import terms as T

RULE = """abstract interpretation with per-bit provenance: for every row of every opcode table, every processor variant and every spelling of the mnemonic, the program's own parser, layout check and encoder are interpreted with unknown operands; the resulting words, as functions of the operands, must be the ones of the reference encoding of that mnemonic and operand form (same bits, each from the same operand bit), a form must be accepted on exactly the variants of the reference, and every register name must have its reference number"""
ASSUMPTIONS = ['the reference encodings under /verif/ref are right: they were vetted against an independent assembler (llvm-mc) for MIPS, ARM and Thumb, and by hand for SuperH, PSP and RSP',
               'an operand value is taken as a 32-bit number, as the assembler does by design']
LEVEL = 'other'

ARCHS = ('mips', 'thumb', 'sh', 'arm')


def forms(P, E, arch, full):
    return isa.run_all(P, E, [arch], full)


def kinds(shape):
    """Operand kinds of a shape, without punctuation and ranges."""
    out = []
    for t in shape.split():
        k = t.lstrip('?').split(':')[0].split('=')[0].split('/')[0]
        if k[:1].isupper() or not k: continue
        out.append(k)
    return tuple(out)


def compatible(a, b):
    return [x[0] for x in a['ops']] == [x[0] for x in b['ops']]


def load(arch, full):
    r = isaref.load(arch)
    if r is None: raise Broken('no reference for ' + arch)
    keys, get = r
    ref = {}; order = defaultdict(list); allkeys = set()
    for k, fl, row, i in keys:
        allkeys.add(k)
        if not full and fl != 'q': continue
        if k in ref: continue
        ref[k] = i
        v, m, s = k.split('|', 2)
        order[v, m].append(k)
    return ref, get, order, allkeys


def collect(out):
    """First row of each key wins."""
    cur = {}; und = defaultdict(int); order = defaultdict(list)
    for arch, v, m, row, shape, rec in out:
        if rec is None: und[v, m] += 1; continue
        k = '%s|%s|%s' % (v, m, shape)
        if k in cur: continue
        cur[k] = (row, rec); order[v, m].append(k)
    return cur, und, order


def check(P, res, tier):
    E = CK.effects()
    full = tier == 'thorough'
    tot = 0
    for arch in ARCHS:
        ref, get, rorder, allkeys = load(arch, full)
        cur, und, order = collect(forms(P, E, arch, full))
        hit = sum(1 for k in ref if k in cur)
        res.stats[arch + '_forms'] = len(cur); res.stats[arch + '_undecided'] = sum(und.values())
        if hit * 2 < len(ref):
            res.stats[arch + '_skipped'] = 'only %d of %d reference forms recognised' % (hit, len(ref))
            continue
        tot += hit
        compare(res, P, arch, ref, get, rorder, cur, und, order, allkeys)
        variants(res, arch, cur, order, allkeys)
        registers(res, arch, cur)
        precedence(res, arch, rorder, get, ref, cur)
    operands(res, P, E)
    res.need(len(res.obligations), 1, 'obligations_examined')
    res.stats['forms_compared'] = tot


def name(arch, k):
    v, m, s = k.split('|', 2)
    return '%s (%s) "%s %s"' % (m, arch + '/' + v, m, s)


def compare(res, P, arch, ref, get, rorder, cur, und, order, allkeys):
    sure = 0; unsure = 0
    for k, i in ref.items():
        v, m, s = k.split('|', 2)
        r = get(i)
        if k in cur:
            d, c = isaref.compare(cur[k][1], r)
            res.ob('%s encodes as the reference' % name(arch, k), d is None, 'encoding/%s/%s/%s' % (arch, m, s), '%s, table row %d: %s' % (name(arch, k), cur[k][0], d))
            if c: sure += 1
            else: unsure += 1
            continue
        if und.get((v, m)): continue
        cand = [c for c in order.get((v, m), ()) if c not in allkeys and kinds(c.split('|', 2)[2]) == kinds(s) and compatible(cur[c][1], r)]
        if any(isaref.compare(cur[c][1], r)[0] is None for c in cand):
            unsure += 1; res.ob('%s encodes as the reference (other spelling)' % name(arch, k)); continue
        if cand:
            d, c = isaref.compare(cur[cand[0]][1], r)
            res.ob(name(arch, k), False, 'encoding/%s/%s/%s' % (arch, m, s), '%s is now "%s": %s' % (name(arch, k), cand[0], d))
        else:
            res.ob(name(arch, k), False, 'lost/%s/%s/%s/%s' % (arch, v, m, s), '%s is no longer accepted (forms left: %s)' % (name(arch, k), '; '.join(c.split('|', 2)[2] for c in order.get((v, m), ())[:4]) or 'none'))
    res.stats[arch + '_identical'] = sure; res.stats[arch + '_sampled'] = unsure


def variants(res, arch, cur, order, allkeys):
    """A form the reference has on other variants only must not be accepted on this one."""
    known = defaultdict(set); shapes = defaultdict(set); sig = defaultdict(set)
    for k in allkeys:
        v, m, s = k.split('|', 2)
        known[m].add(v); shapes[m, s].add(v); sig[m, kinds(s), v].add(s)
    for k in cur:
        if k in allkeys: continue
        v, m, s = k.split('|', 2)
        if m in known and v not in known[m]:
            res.ob(k, False, 'variant/%s/%s/%s' % (arch, v, m), '%s, table row %d: accepted on %s, but only %s have the instruction' % (name(arch, k), cur[k][0], v, ', '.join(sorted(known[m]))))
        elif shapes.get((m, s)) and not sig.get((m, kinds(s), v)):
            res.ob(k, False, 'variant/%s/%s/%s/%s' % (arch, v, m, s), '%s, table row %d: accepted on %s, but only %s have this form' % (name(arch, k), cur[k][0], v, ', '.join(sorted(shapes[m, s]))))


def registers(res, arch, cur):
    bad = {}
    for k, (row, rec) in cur.items():
        for d in rec['regdiff']: bad.setdefault(d, k)
    for (cls, n, want, got), k in bad.items():
        res.ob('register', False, 'register/%s/%s' % (cls, n), 'register name %s of the %s registers has number %s, the architecture says %d (used by %s)' % (n, cls, got if got is not None else 'none (not accepted)', want, name(arch, k)))
    res.ob('%s: every register table in use gives every architectural name its number' % arch, True)


def fits(a, b):
    """Can one spelling match both shapes?"""
    x, y = a.split(), b.split()
    if len(x) != len(y): return False
    for p, q in zip(x, y):
        if p == q: continue
        if not (p.startswith('reg:') and q.startswith('reg:')): return False
        pc, qc = p.split(':'), q.split(':')
        if pc[1].split('=')[0] != qc[1].split('=')[0]: return False
        lo = lambda c: [int(z) for z in (c[2].split('-') if len(c) > 2 else [c[1].split('=')[1]] * 2)] if len(c) > 2 or '=' in c[1] else None
        u, w = lo(pc), lo(qc)
        if u is None or w is None: continue
        if u[1] < w[0] or w[1] < u[0]: return False
    return True


def precedence(res, arch, rorder, get, ref, cur):
    """Where two forms both match a spelling, the first row decides: its order must be the reference's."""
    n = 0
    for vm, ks in rorder.items():
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                if a not in cur or b not in cur: continue
                sa, sb = a.split('|', 2)[2], b.split('|', 2)[2]
                if not fits(sa, sb): continue
                n += 1
                if cur[a][0] <= cur[b][0]: continue
                d, c = isaref.compare(cur[b][1], get(ref[a]))
                res.ob('%s before %s' % (a, b), d is None, 'order/%s/%s' % (arch, a), '%s (row %d) is now shadowed by "%s" (row %d): %s' % (name(arch, a), cur[a][0], sb, cur[b][0], d))
    res.stats[arch + '_overlaps'] = n


def operands(res, P, E):
    """Spellings of registers, register lists, conditions and prefixes: constants decided by the parsers."""
    ref = leaf.load(); n = u = 0
    for k, r in leaf.run_all(P, E):
        want = ref.get(k)
        if want is None or r is None: u += 1; continue
        r = [r[0], r[1], r[2]]; n += 1
        res.ob('operand %s' % k, r == want, 'operand/%s' % k, '%s: %s, the architecture says %s' % (k, said(r), said(want)))
    res.stats['operand_spellings'] = n; res.stats['operand_spellings_undecided'] = u


def said(r): return 'rejected' if not r[0] else 'value %s, %s tokens' % ('/'.join(str(x) for x in r[1]), r[2])
