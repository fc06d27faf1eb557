#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/text.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from text import PROPS, NA
V = os.path.dirname(HERE)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
            'quantifier': {'over': p['over'], 'text': ' '.join(p['forall'].split())},
            'why_tests_cant': ' '.join(p['why'].split()),
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
        }) + '\n')
na = [{'property': k, 'reason': v} for k, v in NA]
nas = {k for k, _ in NA}
checks = []
for p in PROPS:
    if p['id'] in nas:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p.get('technique', 'abstract interpretation of MIR: provenance dataflow compared with per-case contracts'),
        'level': 'other',
        'level_note': ' '.join(p['note'].split()),
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check type-checks /repo\'s working tree with a rustc driver (driver/), reads the MIR facts and '
              'decides from them; nothing of treeldr is executed. known_findings.txt lists the repaired and the recorded defects.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
