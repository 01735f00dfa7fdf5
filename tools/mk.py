#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py (run by hand, not by a check)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
sys.path.insert(0, here)
from props import P, NA
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'observe_at': p.get('obs', []), 'hook_needed': None}}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in P:
    if p['id'] in NA or not os.path.exists('%s/checks/%s.py' % (V, p['id'].lower())):
        continue
    checks.append({'property': p['id'], 'quick_cmd': './run %s quick' % p['id'],
                   'thorough_cmd': './run %s thorough' % p['id'],
                   'technique': p.get('tech', 'explicit-state enumeration of the real code against a reference model'),
                   'level': p.get('level', 'model_checking'), 'level_note': p['note']})
na = [{'property': k, 'reason': v} for k, v in NA.items()]
claimed = {c['property'] for c in checks}
for p in P:
    if p['id'] not in claimed and p['id'] not in NA:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check runs the code of /repo directly (no build products); see DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(P), 'properties', len(checks), 'checks')
