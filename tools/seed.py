"""plant a bug: seed(id, property, [(file, old, new)], demo source, needs, breaks). Confirms it in /repo (reverted at once) and keeps it in /verif/seeded/<id>"""
import json, os, shutil, subprocess, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def seed(id, prop, edits, demo, needs, breaks, checks=None):
    d = os.path.join(HERE, 'seeded', id)
    assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout.strip(), 'repo not clean'
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f:
        f.write(demo.strip('\n') + '\n')
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n# cwd: /repo; exit 0 when the property holds\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    ok = True
    r0 = sh('bash', d + '/demo.sh', cwd='/repo')
    try:
        for f, old, new in edits:
            p = '/repo/weio/' + f
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) >= 1, (id, f, old)
            open(p, 'w', newline='').write(s.replace(old, new, 1))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        b = sh('bash', '/opt/vp/build.sh')
        t = sh('bash', '/opt/vp/test.sh', '/tmp/seed_o.json').stdout.strip().split('\n')[-1]
        r1 = sh('bash', d + '/demo.sh', cwd='/repo')
        res = []
        for c in (checks or prop).split():
            k = sh('python3', '-W', 'ignore', '-m', 'sa.check', c, cwd=HERE)
            lines = [l for l in k.stdout.split('\n') if l and not l.startswith(('KNOWN', 'VIOLATION', '    via'))]
            res.append((c, k.returncode, (lines[0] if k.returncode else '')[:160] + k.stderr[-300:]))
    finally:
        sh('git', '-C', '/repo', 'checkout', '--', '.')
        sh('git', '-C', '/repo', 'clean', '-fdXq', 'weio/tests/example_files')
    good = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and t == '47 passed, 0 failed'
    print('SEED %-8s %s demo %d->%d build %d tests [%s] %s' % (id, 'valid' if good else 'INVALID', r0.returncode, r1.returncode, b.returncode, t,
          'CAUGHT' if any(r[1] == 1 for r in res) else 'MISSED'), res)
    if r0.returncode:
        print('   unchanged:', (r0.stdout + r0.stderr)[-600:])
    if r1.returncode == 0:
        print('   patched demo output:', (r1.stdout + r1.stderr)[-300:])
    elif os.environ.get('V'):
        print('   patched:', (r1.stdout + r1.stderr)[-300:])
    sys.stdout.flush()
    return good
