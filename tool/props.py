"""Source of properties.jsonl and MANIFEST.json (run: python3 tool/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

AST = 'include/marco/AST/BaseModelica/Node/*.h'
P = []      # (id, title, statement, over, quantifier text, why tests can't, files, mechanisms, technique, level note | None, reason)


def prop(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None):
    P.append((id, title, statement, over, q, why, files, mech, technique, note, na))


exec(open(os.path.join(V, 'tool/props_data.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for id, title, st, over, q, why, files, mech, tech, note, na in P:
            assert len(title) <= 80, (id, len(title))
            f.write(json.dumps({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q},
                                'why_tests_cant': why,
                                'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}) + '\n')
    checks, na = [], []
    for id, title, st, over, q, why, files, mech, tech, note, reason in P:
        if reason:
            na.append({'property': id, 'reason': reason})
        else:
            checks.append({'property': id, 'quick_cmd': 'python3 run.py %s quick' % id,
                           'thorough_cmd': 'python3 run.py %s thorough' % id,
                           'evidence_file': 'evidence/%s.json' % id,
                           'technique': tech, 'level': 'other', 'level_note': note})
    m = {'version': 1, 'setup_cmd': 'bash tool/setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis only: every check re-reads /repo\'s current sources through a libTooling extractor '
                  '(tool/extract.cpp) and decides its obligations by abstract interpretation or by queries over the '
                  'resolved syntax tree; see DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
