#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props/*.json-like
Python descriptions, so that the two stay in step."""
import json, os, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
P, NA = [], []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, level='other',
         na=None, state=None, script=None):
    assert len(title) <= 80, (id, len(title))
    for o in over:
        assert o in ('schedules', 'crash_points', 'inputs', 'programs', 'histories', 'configurations',
                     'fault_sequences'), o
    P.append(dict(line=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))),
        technique=technique, note=note, level=level, na=na, script=script or 'checks/%s.py' % id))


exec(open(os.path.join(HERE, 'props_data.py'), encoding='utf-8').read())

ids = [p['line']['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in P:
        for a in p['line']['anchors']['files']:
            assert os.path.exists('/repo/' + a), (p['line']['id'], a)
        f.write(json.dumps(p['line'], ensure_ascii=False) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append(dict(property=p['line']['id'], reason=p['na']))
    elif os.path.exists(os.path.join(VERIF, p['script'])):
        checks.append(dict(property=p['line']['id'], quick_cmd='python3 ' + p['script'],
                           thorough_cmd='python3 ' + p['script'], technique=p['technique'],
                           level=p['level'], level_note=p['note']))
    else:
        print('no check yet for', p['line']['id'])
        na.append(dict(property=p['line']['id'], reason='The check is not built yet.'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not applicable')
