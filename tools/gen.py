#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, C, NA = [], [], []

def prop(id, title, statement, over, text, why, files, mech, state=None, technique=None, note=None, level='other', na=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        C.append({'property': id, 'quick_cmd': 'python3 check.py ' + id, 'thorough_cmd': 'python3 check.py ' + id,
                  'technique': technique, 'level': level, 'level_note': note})

exec(open(os.path.join(V, 'tools', 'proptable.py')).read())
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
json.dump({'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': C, 'not_applicable': NA}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(C), 'claimed')
