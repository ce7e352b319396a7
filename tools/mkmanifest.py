"""writes /verif/MANIFEST.json from the checks that exist"""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = {}
NOTE = {}
NA = {
 'C23': 'equality of numbers after a round trip depends on run-time values (formatting precision, float parsing); no sound static argument in reach bounds it. Its structural parts are claimed separately: field layouts (C20), table kinds (C21), text encoding (C22).',
 'C24': 'needs the meaning of every file format as an oracle and the values at run time; parsing correctness of ~35 formats is not visible in the shape of the code.',
 'C25': 'which exception escapes for which malformed byte string is decided by incidental exceptions of numpy, pandas, int() and indexing on run-time values; nearly every statement of the parsers can raise, so a static rule would either flag all of them or none.',
}
T, N = {}, {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read(), dict(T=T, N=N))
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if os.path.exists(os.path.join(HERE, 'sa', 'checks', pid.lower() + '.py')):
        checks.append(dict(property=pid, quick_cmd='python3 -W ignore -m sa.check ' + pid,
                           thorough_cmd='VERIF_TIER=thorough python3 -W ignore -m sa.check ' + pid,
                           evidence_file='evidence/%s.json' % pid, technique=T.get(pid, 'static analysis'), level='other',
                           level_note=N.get(pid, '')))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 -W ignore -c "import sa.check, sa.model"', checks=checks, not_applicable=na,
         notes='All checks parse /repo/weio with the standard ast module on every run; nothing of weio is imported or executed.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
