#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl.md, the planted changes and their first verdicts (run by hand, not by a check)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
first = json.load(open(here + '/verdicts.json'))
rows = ['| change | property | what it breaks | needs | first run | led to |', '|---|---|---|---|---|---|']
n = miss = 0
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
    led = first.get(b, '')
    n += 1
    miss += bool(led)
    rows.append('| %s | %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'], 'missed' if led else 'caught', led))
t = open(here + '/design.tmpl.md').read()
fix = sum(l.startswith('fixed:') for l in open(V + '/known_findings.txt'))
t = t.replace('@@TABLE@@', '\n'.join(rows)).replace('@@NFIX@@', str(fix))
t = t.replace('@@COUNT@@', '%d are kept; %d were caught by the check as it stood, %d only after the extension named' % (n, n - miss, miss))
assert '@@' not in t
open(V + '/DESIGN.md', 'w').write(t)
print(n, miss)
