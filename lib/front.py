"""Front end: configure /repo, extract the type-checked program of every translation unit, merge."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, pickle
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Broken(Exception):
    """The analysis itself cannot give an answer (never a verdict)."""


def extractor():
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(VERIF, '.build', 'extract-' + h)
    if not os.path.exists(out):
        r = subprocess.run([os.path.join(VERIF, 'extractor', 'build.sh'), out], capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken('extractor does not build:\n' + r.stderr[-3000:])
    return out


def tree_hash(repo):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', '_build', 'Tests'))
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(os.path.relpath(p, repo).encode() + b'\0')
            try:
                h.update(hashlib.sha256(open(p, 'rb').read()).digest())
            except OSError:
                pass
    return h.hexdigest()[:24]


def compile_db(repo, bdir):
    cmd = ['cmake', '-S', repo, '-B', bdir, '-G', 'Ninja', '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DCMAKE_C_COMPILER=/usr/bin/gcc',
           '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_CXX_FLAGS=-Wno-error', '-DARMIPS_USE_STD_FILESYSTEM=ON',
           '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken('cmake configure failed:\n' + r.stderr[-3000:])
    p = os.path.join(bdir, 'compile_commands.json')
    db = json.load(open(p))
    seen = {}
    for e in db:
        f = os.path.realpath(e['file'])
        if f.startswith(os.path.join(repo, 'ext') + os.sep):
            continue
        if 'ARMIPS_TESTS' in e['command']:
            seen.setdefault(('t', f), e)
        else:
            seen.setdefault(('m', f), e)
    out = [e for (k, f), e in seen.items() if k == 'm']
    if len(out) < 30:
        raise Broken('only %d translation units in the compile database' % len(out))
    json.dump(out, open(p, 'w'))
    return sorted(os.path.realpath(e['file']) for e in out)


def extract(repo=None):
    repo = os.path.realpath(repo or REPO)
    exe = extractor()
    cache = None
    if os.environ.get('VERIF_CACHE'):
        cdir = os.path.join(os.environ['VERIF_CACHE'])
        os.makedirs(cdir, exist_ok=True)
        cache = os.path.join(cdir, tree_hash(repo) + os.path.basename(exe) + '.pkl')
        if os.path.exists(cache):
            return pickle.load(open(cache, 'rb'))
    tmp = tempfile.mkdtemp(prefix='armips-sa-')
    try:
        files = compile_db(repo, tmp)

        hdr = None
        if cache:
            h = hashlib.sha256(exe.encode())
            for base, dirs, fs_ in os.walk(repo):
                dirs[:] = sorted(d for d in dirs if d not in ('.git', '_build', 'Tests'))
                for f in sorted(fs_):
                    if f.endswith(('.h', '.hpp', '.inl', 'CMakeLists.txt')):
                        h.update(f.encode() + open(os.path.join(base, f), 'rb').read())
            hdr = h.hexdigest()[:16]

        def one(i):
            if hdr:
                c = os.path.join(cdir, 'tu-%s-%s.pkl' % (hdr, hashlib.sha256(os.path.relpath(files[i], repo).encode() + open(files[i], 'rb').read()).hexdigest()[:20]))
                if os.path.exists(c): return pickle.load(open(c, 'rb'))
                d = one_(i)
                pickle.dump(d, open(c + '.%d' % os.getpid(), 'wb'), protocol=4); os.replace(c + '.%d' % os.getpid(), c)
                return d
            return one_(i)

        def one_(i):
            out = os.path.join(tmp, 'o%d.json' % i)
            r = subprocess.run([exe, repo, tmp, files[i], out], capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(out):
                raise Broken('extraction of %s failed:\n%s' % (files[i], r.stderr[-2000:]))
            d = json.load(open(out))
            os.unlink(out)
            return d
        with ThreadPoolExecutor(8) as ex:
            parts = list(ex.map(one, range(len(files))))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prog = {'functions': {}, 'insts': {}, 'records': {}, 'vars': {}, 'enums': {}, 'types': {}, 'units': [os.path.relpath(f, repo) for f in files]}
    for p in parts:
        for k in ('functions', 'insts', 'records', 'enums', 'types'):
            for n, v in p[k].items():
                prog[k].setdefault(n, v)
        for n, v in p['vars'].items():
            o = prog['vars'].get(n)
            if o is None or ('init' in v and 'init' not in o) or (v.get('def') and not o.get('def')):
                prog['vars'][n] = v
    if cache and not os.environ.get('VERIF_REPO'):
        with open(cache + '.%d' % os.getpid(), 'wb') as f: pickle.dump(prog, f, protocol=4)
        os.replace(cache + '.%d' % os.getpid(), cache)
    return prog


if __name__ == '__main__':
    # setup: build the extractor
    try:
        print(extractor())
    except Broken as e:
        print(e); sys.exit(1)
