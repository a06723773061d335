#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property + design_tail.md + the planted bugs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + '/tool/'
out = [open(T + 'design_head.md').read()]
notes = {}
exec(open(T + 'design_notes.py').read(), {'notes': notes})
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    out.append('### %s. %s\n\n%s\n\n%s\n' % (d['id'], d['title'], d['statement'], notes[d['id']].strip()))
out.append(open(T + 'design_tail.md').read())
rows = []
S = V + '/seeded'
for i in sorted(os.listdir(S)):
    m = json.load(open('%s/%s/meta.json' % (S, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs']))
out.append('## Planted bugs\n\nEvery one of these is caught by the check of its property (last confirmed by `tool/plant.py` and vcheck).\n\n'
           '| bug | caught by | breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
k = [l.strip()[7:] for l in open(V + '/known_findings.txt') if l.startswith('fixed:')]
out.append('## Genuine defects found and repaired\n\n' + '\n'.join('* ' + x for x in k) + '\n')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
