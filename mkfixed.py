"""Developer tool: refresh the 'fixed' list of known_findings.json from /repo's fix: commits (never run by a check)."""
import json, subprocess
P = dict(l.split() for l in '''cf4206d C02
579634d C04
2e09112 C05
bcedab1 C02
dcc7f0d C07
e2fe8a4 C01
1b54f37 C07
6e81729 C07
1efabfd C07
af5f337 C07
95c8599 C08
7abd0c8 C03
6e6cad0 C09
4f5fe20 C09
6c9ef70 C17
396b183 C08
2df659f C17
8984e2a C08
d7d2ab8 C10'''.splitlines())
try:
    P.update(dict(l.split() for l in open('fixmap.txt')))
except OSError:
    pass
k = json.load(open('known_findings.json'))
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        out.append('fixed: property=%s %s %s' % (P[h], h, s[5:]))
k['fixed'] = out
json.dump(k, open('known_findings.json', 'w'), indent=1)
