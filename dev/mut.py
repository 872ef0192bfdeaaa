#!/usr/bin/env python3
"""Development aid: try textual mutations / refactorings in a scratch copy and run checks against it.
usage: mut.py SPEC.py [name...]   SPEC.py defines MUT = {name: (props, expect, [(file, old, new), ...])}
expect: 1 = the checks must report, 0 = must stay quiet."""
import os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])['MUT']
names = sys.argv[2:] or list(spec)

def one(name):
    props, expect, edits = spec[name]
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', '_build'))
    try:
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(r, f); s = open(p, newline='').read()
            s2 = s.replace('\r\n', '\n'); 
            if old not in s2: return name, 'EDIT-MISS %s: %r' % (f, old[:60])
            s2 = s2.replace(old, new, 1)
            if '\r\n' in s: s2 = s2.replace('\n', '\r\n')
            open(p, 'w', newline='').write(s2)
        out = []
        # one process for all properties
        ev = dict(os.environ, VERIF_REPO=r, VERIF_EVID=d, VERIF_CACHE='/tmp/vcache')
        for pr in ([props] if isinstance(props, str) else props):
            x = subprocess.run([os.path.join(V, 'run'), pr], capture_output=True, text=True, env=ev)
            ok = (x.returncode == expect)
            det = '' if ok and expect == 0 else ' | '.join(l.strip()[:260] for l in x.stdout.splitlines() if l.startswith('  ') or 'BROKEN' in l)[:(160 if ok else 700)]
            if x.returncode not in (0, 1): det += x.stdout[-400:] + x.stderr[-600:]
            out.append('%s %s rc=%d %s' % ('ok  ' if ok else 'BAD ', pr, x.returncode, det))
        return name, '\n      '.join(out)
    finally:
        shutil.rmtree(d)

with ThreadPoolExecutor(6) as ex:
    for n, o in ex.map(one, names):
        print('%-28s %s' % (n, o), flush=True)
