#!/usr/bin/env python3
"""Refreshes the `fixed` entries of known_findings.json from /repo's fix: commits."""
import json
import subprocess
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [('ssa', 'C08'), ('register allocation', 'C08'), ('bit-field', 'C03'), ('va_', 'C05'), ('float', 'C04'), ('switch', 'C02'), ('nan', 'C04')]
try:
    EXPL = json.load(open(V + '/tools/findings_map.json'))
except OSError:
    EXPL = {}
p = V + '/known_findings.json'
d = json.load(open(p))
keep = [x for x in d['findings'] if x['status'] != 'fixed']
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    what = s[5:]
    pr = EXPL.get(what)
    if pr is None:
        pr = next((c for k, c in RULES if k in what.lower()), 'C01')
    out.append({'property': pr, 'status': 'fixed', 'id': 'fixed-' + h, 'commit': h, 'what': what,
                'line': 'fixed: property=%s %s %s' % (pr, h, what)})
d['findings'] = keep + out
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
for x in out:
    print(x['line'])
