"""rf(name, edits...): a behaviour-preserving edit; every check must stay quiet.  edit = (file, old, new)"""
import atexit, os, shutil, subprocess, sys, tempfile, time
ALL = ['C%02d' % i for i in range(1, 23)] + ['C26']


PENDING = []


def flush():
    """COMBINE=1: all the selected edits in one copy"""
    if PENDING:
        run('+'.join(n for n, _ in PENDING), [e for _, es in PENDING for e in es], ALL)


atexit.register(flush)


def rf(name, *edits, checks=ALL):
    if len(sys.argv) > 1 and name not in sys.argv[1:]:
        return
    if os.environ.get('COMBINE'):
        PENDING.append((name, edits))
    else:
        run(name, edits, checks)


def run(name, edits, checks):
    os.makedirs('/tmp/mt', exist_ok=True)
    d = tempfile.mkdtemp(dir='/tmp/mt')
    subprocess.check_call('git -C /repo archive HEAD weio requirements.txt setup.py | tar -x -C %s' % d, shell=True)
    for f, old, new in edits:
        p = d + '/weio/' + f
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) < 1:
            print('EDIT DOES NOT APPLY', name, f, repr(old)[:80])
            shutil.rmtree(d)
            return
        s = s.replace(old, new, 1)
        open(p, 'w', newline='').write(s)
        compile(s, f, 'exec')

    res = []
    ps = []
    checks = sorted(checks, key=lambda c: c != 'C21')
    todo = list(checks)
    while todo or ps:
        while todo and len(ps) < 5:
            c = todo.pop(0)
            ps.append((c, subprocess.Popen(['python3', '-W', 'ignore', '-m', 'sa.check', c], cwd='/verif', env=dict(os.environ, VERIF_REPO=d),
                                           stdout=open(d + '/out_' + c, 'w'), stderr=subprocess.STDOUT)))
        time.sleep(0.3)
        for c, p in list(ps):
            if p.poll() is not None:
                ps.remove((c, p))
                res.append((c, p.returncode, open(d + '/out_' + c).read()))
    bad = [x for x in res if x[1] != 0]
    print('ok  ' if not bad else 'BAD ', name)
    for c, rc, o in bad:
        print('    ', c, rc, '\n        '.join([l for l in o.split('\n') if l and not l.startswith(('KNOWN', 'VIOLATION'))][:6])[:900])
    sys.stdout.flush()
    shutil.rmtree(d)
