#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one source for both)."""
import json
TECH = 'contract-based deductive verification of the Go source (vf: SSA to SMT, function by function, z3/cvc5), contracts also executed on the real code'
P = []
def prop(id, title, statement, qtext, why, files, mech, over=('inputs',), note=None, na=None, level='proof', state=None):
    e = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': qtext},
         'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state: e['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append((e, note, na, level))

exec(open(__file__.rsplit('/', 1)[0] + '/properties_table.py').read())

with open('/verif/properties.jsonl', 'w') as f:
    for e, _, _, _ in P: f.write(json.dumps(e) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: contracts are overlaid on /repo by the verifier and the executable runs, nothing is added to the repository.'}
for e, note, na, level in P:
    if na: m['not_applicable'].append({'property': e['id'], 'reason': na})
    else: m['checks'].append({'property': e['id'], 'quick_cmd': 'bash check.sh ' + e['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + e['id'], 'technique': TECH, 'level': level, 'level_note': note})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
