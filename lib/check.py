"""Common driver: runs one property's rules over /repo, writes evidence, prints the verdict."""
import importlib, json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from front import VERIF, REPO, Broken, extract
from prog import Program


EVID = os.environ.get('VERIF_EVID', VERIF)


class Result:
    def __init__(self):
        self.violations = []     # (key, message)
        self.obligations = []    # strings, one per rule instance examined
        self.stats = {}
        self.assumptions = []
        self.rule = ''
        self.samples = []

    def ob(self, what, ok=True, key=None, msg=None):
        """One obligation: `what` was examined; not ok -> violation."""
        self.obligations.append((what, bool(ok)))
        if not ok:
            self.bad(key or what, msg or what)

    def bad(self, key, msg):
        if not any(k == key for k, m in self.violations):
            self.violations.append((key, msg))

    def need(self, n, minimum, what):
        """Vacuity guard: the rule must still find its instances."""
        self.stats[what] = n
        if n < minimum:
            raise Broken('only %d %s found, at least %d expected: the rule no longer sees the code it judges' % (n, what, minimum))


def known(prop):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out


_shared = {}


def program():
    if 'P' not in _shared: _shared['P'] = Program(extract())
    return _shared['P']


def effects():
    if 'E' not in _shared:
        from effects import Effects
        _shared['E'] = Effects(program())
    return _shared['E']


def slug(key):
    return re.sub(r'[^A-Za-z0-9_.:/@+-]+', '_', key)[:160]


def run(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('props.' + prop)
    res = Result()
    try:
        P = program()
        mod.check(P, res, tier)
        if not res.obligations:
            raise Broken('no obligations examined')
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e))
        return 2
    kf = known(prop)
    fresh = [(slug(k), m) for k, m in res.violations if slug(k) not in kf]
    hit = [(slug(k), m) for k, m in res.violations if slug(k) in kf]
    os.makedirs(os.path.join(EVID, 'evidence'), exist_ok=True)
    done = sum(1 for w, ok in res.obligations if ok)
    cov = {'explanation': mod.RULE, 'rule': mod.RULE, 'translation_units': len(P.units), 'functions': len(P.fn),
           'obligations': len(res.obligations), 'discharged': done,
           'checker_cmd': './run %s' % prop, 'trusted_base': ['clang 18 front end (name lookup, types, constant folding)', 'the extractor and the analyses under /verif'],
           'samples': [w for w, ok in res.obligations[:8]], 'known_findings': [k for k, m in hit]}
    cov.update(res.stats)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': getattr(mod, 'LEVEL', 'other'),
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    evp = os.path.join(EVID, 'evidence', prop + '.json')
    json.dump(ev, open(evp, 'w'), indent=1)
    print('property %s: %s' % (prop, mod.RULE.split('\n')[0]))
    print('analysed: %d translation units, %d functions; %d obligations, %d discharged; %s' % (
        len(P.units), len(P.fn), len(res.obligations), done, ', '.join('%s=%s' % kv for kv in res.stats.items() if not isinstance(kv[1], (list, dict)))))
    for k, m in hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, kf[k]))
    if fresh:
        rp = os.path.join(EVID, 'evidence', prop + '.replay.txt')
        with open(rp, 'w') as f:
            for k, m in fresh:
                f.write('key=%s\n%s\n\n' % (k, m))
        for k, m in fresh:
            print('  %s: %s' % (k, m))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('PASS property=%s' % prop)
    return 0


if __name__ == '__main__':
    rc = 0
    for p in sys.argv[1:]:
        try:
            r = run(p)
        except Exception:
            traceback.print_exc()
            print('ANALYSIS-BROKEN property=%s: internal error' % p)
            r = 2
        rc = r if (rc == 0 or r == 1) else rc
    sys.exit(rc)
