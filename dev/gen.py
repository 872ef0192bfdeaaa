#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (a property is claimed when lib/props/<id>.py exists)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note='', na=None):
    PR.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na))

exec(open(os.path.join(V, 'dev', 'proptable.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PR:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks, na = [], []
for p in PR:
    if p['na']: na.append({'property': p['id'], 'reason': p['na']}); continue
    if not os.path.exists(os.path.join(V, 'lib', 'props', p['id'] + '.py')):
        na.append({'property': p['id'], 'reason': 'check not built yet'}); continue
    checks.append({'property': p['id'], 'quick_cmd': './run %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./run %s' % p['id'],
        'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 lib/front.py --setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
