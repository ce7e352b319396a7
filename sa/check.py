"""python3 -m sa.check C01 [...]  - decide properties from the source text of the repository.

exit 0: held (known findings listed), 1: a violation not listed in known_findings.txt, 2: analysis impossible
"""
import sys, os, json, time, importlib, traceback, warnings, hashlib
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Finding:
    """one violation: rule + construct identify it (no line numbers in the key)"""
    def __init__(self, rule, file, where, construct, line, msg, path=None):
        self.rule, self.file, self.where, self.construct = rule, file, where, construct
        self.line, self.msg, self.path = line, msg, path or []
        self.key = '|'.join([rule, file, where, construct])

    def text(self):
        return '%s:%s: in %s: [%s] %s' % (self.file, self.line, self.where, self.rule, self.msg)


class Result:
    def __init__(self, findings, rule, counts, samples=(), assumptions=(), minimum=()):
        self.findings, self.rule, self.counts = findings, rule, counts
        self.samples, self.assumptions = list(samples), list(assumptions)
        self.minimum = dict(minimum)      # count name -> floor below which the analysis is considered broken


def load_known():
    known = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.rstrip('\n')
            if l.startswith('known: property='):
                rest = l[len('known: property='):]
                pid, _, rest = rest.partition(' ')
                key, _, what = rest.partition(' :: ')
                assert key.startswith('key=')
                known[(pid, key[4:])] = what
    return known


def run(pid, proj, tier):
    t0 = time.time()
    mod = importlib.import_module('sa.checks.%s' % pid.lower())
    res = mod.check(proj, tier)
    from .model import AnalysisError
    for name, floor in res.minimum.items():
        if res.counts.get(name, 0) < floor:
            raise AnalysisError('%s: only %s %s analysed (at least %s expected): the anchors of the analysis are gone'
                                % (pid, res.counts.get(name), name, floor))
    known = load_known()
    uniq = {}
    for f in res.findings:
        uniq.setdefault(f.key, f)
    new, old = [], []
    for k, f in sorted(uniq.items()):
        (old if (pid, k) in known else new).append(f)
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, f.text()))
    rep = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rep, exist_ok=True)
    for f in new:
        path = os.path.join(rep, '%s_%s.txt' % (pid, hashlib.sha1(f.key.encode()).hexdigest()[:10]))
        with open(path, 'w') as fid:
            fid.write('property: %s\nrule: %s\nkey: %s\n%s\n' % (pid, f.rule, f.key, f.text()))
            for s in f.path:
                fid.write('  via %s\n' % (s,))
            fid.write('re-run: cd /verif && python3 -m sa.check %s\n' % pid)
        print(f.text())
        for s in f.path:
            print('    via', s)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    cov = dict(explanation='static analysis of the source text (nothing of weio is run). Rule: ' + res.rule,
               modules=len(proj.mods), functions=len(proj.funcs), classes=len(proj.classes))
    cov.update(res.counts)
    cov['samples'] = res.samples[:12]
    cov['known_findings'] = [f.text() for f in old]
    cov['violations'] = [f.text() for f in new]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other', coverage=cov,
              assumptions=res.assumptions, wall_s=round(time.time() - t0, 3), violations=len(new))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fid:
        json.dump(ev, fid, indent=1)
    print('%s: %d violation(s), %d known finding(s), %.1f s; %s' %
          (pid, len(new), len(old), time.time() - t0, ', '.join('%s=%s' % kv for kv in res.counts.items())))
    return 1 if new else 0


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    from .model import Project, AnalysisError
    rc = 0
    try:
        proj = Project(REPO)
        ids = argv or sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'sa', 'checks')) if f.startswith('c') and f.endswith('.py'))
        for pid in ids:
            rc = max(rc, run(pid, proj, tier))
    except AnalysisError as e:
        print('ANALYSIS-BROKEN:', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
