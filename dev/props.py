#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None, **anchors):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': q}, why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[{'name': a, 'where': b} for a, b in mech], **anchors)))
    if na:
        NA.append({'property': id, 'reason': na})
    P[-1]['_t'] = technique
    P[-1]['_n'] = note
    P[-1]['_na'] = na


exec(open(os.path.join(V, 'dev', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 engine/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                 'technique': p['_t'], 'level': 'other', 'level_note': p['_n']} for p in sorted(P, key=lambda p: p['id']) if not p['_na']],
     'not_applicable': NA,
     'notes': 'Every check re-exports the clang AST of /repo\'s current sources and decides the rules by dataflow / value-flow analysis; nothing of the '
              'target is executed. Exit 2 means the analysis lost an anchor (no verdict).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'checks,', len(NA), 'not applicable')
