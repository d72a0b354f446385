#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/props.py and
tools/design_*.md."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from props import P  # noqa: E402

P.sort(key=lambda p: p['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks = []
for p in P:
    assert len(p['title']) <= 80, p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py check %s' % p['id'],
                   'thorough_cmd': 'python3 run.py check %s --tier thorough' % p['id'],
                   'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
     'notes': 'Every check is run.py check <id>; run.py replay <file> re-runs a shrunk counterexample. See DESIGN.md.'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
kf = json.load(open(V + '/known_findings.json'))['findings']
with open(V + '/DESIGN.md', 'w') as f:
    f.write(open(HERE + '/design_head.md').read())
    f.write('\n## Properties and how each is decided\n\n')
    for p in P:
        f.write('### %s — %s\n\n%s\n\n*Decided by*: %s. %s\n\n*Trust*: %s\n\n' % (
            p['id'], p['title'], p['statement'], p['technique'], p['design'], p['note']))
    f.write('## Findings\n\nGenerated from known_findings.json.\n\n')
    for k in kf:
        f.write('- **%s** (%s, %s%s): %s\n' % (k['id'], k['property'], k['status'],
                                              ' ' + k['commit'] if k.get('commit') else '', k['what']))
    f.write('\n')
    t = HERE + '/design_tail.md'
    if os.path.exists(t):
        f.write(open(t).read())
