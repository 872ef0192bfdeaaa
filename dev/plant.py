"""plant.py: write seeded/<id> from edits. usage: from a spec file defining BUGS = {id: dict(prop, needs, breaks, edits, demo, files)}"""
import os, sys, subprocess, runpy, json, shutil, tempfile
spec = runpy.run_path(sys.argv[1])['BUGS']
for bid in (sys.argv[2:] or spec):
    b = spec[bid]
    d = '/verif/seeded/' + bid
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(); subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w'])
    try:
        for f, old, new in b['edits']:
            p = t + '/w/' + f; s = open(p, newline='').read(); crlf = '\r\n' in s
            s = s.replace('\r\n', '\n'); assert old in s, (bid, f, old)
            s = s.replace(old, new, 1)
            if crlf: s = s.replace('\n', '\r\n')
            open(p, 'w', newline='').write(s)
        diff = subprocess.check_output(['git', '-C', t + '/w', 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w']); shutil.rmtree(t)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo after the build\nset -u\nhere=$(cd "$(dirname "$0")" && pwd)\nrepo=$PWD\nW=$(mktemp -d /tmp/demo-XXXXXX)\ntrap \'rm -rf "$W"\' EXIT\ncd "$W"\nARMIPS=$repo/_build/armips\n' + b['demo'].strip() + '\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    for n, c in b.get('files', {}).items(): open(d + '/' + n, 'w').write(c)
    print('planted', bid)
