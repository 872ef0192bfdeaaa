"""Development aid: compare the encodings the analysis derives from /repo with llvm-mc's.
usage: vet.py mips|arm|thumb   (needs /tmp/isa.pkl of that architecture)"""
import sys, os, re, subprocess, pickle, random
sys.path.insert(0, '/verif/lib')
import isaref as R
arch = sys.argv[1]
r = pickle.load(open('/tmp/isa.pkl', 'rb'))
PUN = {'Comma': ',', 'LParen': '(', 'RParen': ')', 'LBrack': '[', 'RBrack': ']', 'Hash': '#', 'LBrace': '{', 'RBrace': '}', 'Exclamation': '!', 'Assign': '=', 'Plus': '+', 'Minus': '-', 'Caret': '^'}
def rname(cls, n):
    if arch == 'mips': return '$%d' % n if not cls.startswith('f0') else '$f%d' % n
    if cls == 'lr': return 'r%d' % n
    if cls == 'c0' or cls.startswith('c'): return 'c%d' % n
    if cls.startswith('p'): return 'p%d' % n
    return 'r%d' % n
def rlist(m): return ','.join('r%d' % i for i in range(16) if m >> i & 1)
def text(x, env):
    arch_, vn, nm, row, shape, rec = x
    s = ''; k = 0
    ops = rec['ops']; parts = shape.split()
    pend = ''
    for p in parts:
        opt = p.startswith('?'); q = p.lstrip('?')
        if q in PUN: s += PUN[q] + (' ' if q == 'Comma' else ''); continue
        if q.startswith('shift:none'): continue
        if q.startswith('shift:imm:') or q.startswith('shift:reg:'):
            s += ', ' + q.split(':')[2] + ' '
            if q.startswith('shift:imm:'):
                if 'rrx' in q: k += 1; pend = 'skip'
                else: s += '#'
            continue
        if q.startswith('shift:num'): s += ', lsr #5'; continue
        if q.startswith('pshift'): 
            if 'imm' in q: s += '#'
            continue
        if p == '?': return None
        if pend == 'skip': pend = ''; continue
        op = ops[k]; k += 1
        v = env[op[2][0][1]]
        if op[0] == 'reg': s += rname(op[1][0], v)
        elif op[0] == 'imm': s += '%d' % v
        elif op[0] == 'wb': s += '!' if v else ''
        elif op[0] == 'caret': s += '^' if v else ''
        elif op[0] == 'sign': s += '' if v else '-'
        elif op[0] == 'rlist': s += rlist(v)
        else: return None
    if arch == 'arm':
        m = re.match(r'(.*?)(eq|ne|cs|hs|cc|lo|mi|pl|vs|vc|hi|ls|ge|lt|gt|le|al)(b|h|sb|sh|d|bt|t|s|ib|ia|db|da|ed|fd|ea|fa|l)$', nm)
        base = nm
        if m and len(m.group(1)) >= 3: base = m.group(1) + m.group(3) + m.group(2)
        nm = base
    return nm + ' ' + s
random.seed(1)
tests = []
for x in r:
    if x[5] is None: continue
    got = 0; vs = list(R.valuations([x[5]])); random.shuffle(vs)
    for env in vs:
        if R.killed(x[5], env) != 0: continue
        w = R.words(x[5]['ev'], env)
        if w is None: continue
        e2 = dict(env)
        for i, op in enumerate(x[5]['ops']):
            if op[0] == 'imm':
                v = env[op[2][0][1]]
                if "'pc'" in repr(x[5]['ev']):
                    off = {'mips': 4, 'arm': 8, 'thumb': 4}[arch]
                    v = R.wrap(v - env['pc'] - off, 32, True)
                e2[op[2][0][1]] = R.wrap(v, 32, True)
        t = text(x, e2)
        if t is None: break
        tests.append((x, t, w, env)); got += 1
        if got >= 3: break
print(len(tests), 'tests')
trip = {'mips': [('mips64', ['-mcpu=mips64r2', '-mattr=+dsp']), ('mips', ['-mcpu=mips32r2']), ('mips', ['-mcpu=mips2'])], 'arm': [('armv5te', []), ('armv6t2', [])], 'thumb': [('thumbv5te', []), ('thumbv6', [])]}[arch]
left = tests; bad = {}
for tr, fl in trip:
    src = ''.join(('.set noreorder\n.set noat\n.set nomacro\n' if arch == 'mips' and i == 0 else '') + 'Lq%d: ' % i + t[1] + '\n' for i, t in enumerate(left))
    open('/tmp/vet.s', 'w').write(src)
    off = 3 if arch == 'mips' else 0
    p = subprocess.run(['llvm-mc-18', '--arch=' + ('mips64' if tr == 'mips64' else tr if arch == 'mips' else 'arm' if arch == 'arm' else 'thumb'), '--triple=' + tr, '--show-encoding'] + fl + ['/tmp/vet.s'], capture_output=True, text=True)
    errs = {int(m.group(1)) - off for m in re.finditer(r'vet\.s:(\d+):\d+: error', p.stderr)}
    got = {}; cur = None
    for l in p.stdout.splitlines():
        m = re.match(r'Lq(\d+):', l)
        if m: cur = int(m.group(1)); continue
        m = re.search(r'encoding: \[(.*?)\]', l)
        if m and cur is not None: got.setdefault(cur, []).append(m.group(1))
    pairs = [(t, got[i][0]) for i, t in enumerate(left) if len(got.get(i, ())) == 1]
    print(tr, len(pairs), 'errors', len(errs))
    nxt = []
    for t, e in pairs:
        if re.search(r'[A-Z\']', e.replace('0x', '').replace('A', '')): pass
        bs = e.split(',')
        try: by = [int(b, 16) for b in bs]
        except ValueError: continue
        if arch == 'mips': val = int.from_bytes(bytes(by), 'big'); mine = t[2][0][1]
        elif arch == 'arm': val = int.from_bytes(bytes(by), 'little'); mine = t[2][0][1]
        else:
            val = [int.from_bytes(bytes(by[i:i + 2]), 'little') for i in range(0, len(by), 2)]; mine = [w[1] for w in t[2]]
        if val != mine: bad.setdefault((t[0][2], t[0][4]), []).append((t[1], mine, val))
        t[0][5]['vetted'] = 1
    left = [t for i, t in enumerate(left) if len(got.get(i, ())) != 1]
print('vetted forms', sum(1 for x in r if x[5] and x[5].get('vetted')), 'of', len(r))
for k, v in list(bad.items())[:int(sys.argv[2]) if len(sys.argv) > 2 else 60]:
    print(k, v[0][0], v[0][1] if isinstance(v[0][1], list) else '%08x' % v[0][1], v[0][2] if isinstance(v[0][2], list) else '%08x' % v[0][2])
if len(sys.argv) > 3: print('unvetted:', sorted({x[2] for x in r if x[5] and not x[5].get('vetted')})[:400])
