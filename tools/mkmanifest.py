#!/usr/bin/env python3
"""regenerate MANIFEST.json from the contract modules present"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
have = {f[:3].upper() for f in os.listdir(H + '/belv/contracts') if f.startswith('c') and f[1:3].isdigit()}
TECH = ('contract-based deductive verification: the real functions, extracted mechanically from /repo on every run, are '
        'executed on symbolic inputs against pre/postconditions; z3 (and sympy normal forms for expression equality) '
        'discharges every obligation; counterexamples are replayed on the unmodified code')
exec(open(H + '/tools/levels.py').read())
checks, na = [], []
for i in ids:
    if i in have and i in LEVEL:
        lv, note = LEVEL[i]
        checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python /verif/check.py %s --tier quick' % i,
                           thorough_cmd='/opt/venv/bin/python /verif/check.py %s --tier thorough' % i,
                           evidence_file='/verif/evidence/%s.json' % i, technique=TECH, level=lv, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(H + '/MANIFEST.json', 'w'), indent=1)
