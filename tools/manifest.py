#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification (VCs from clang IR of the real sources, z3/cvc5)'
exec(open(os.path.join(H, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []; na = []
for i in ids:
    if i in CLAIMS:
        lvl, tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i, technique=tech, level=lvl, level_note=note))
    else: na.append(dict(property=i, reason=NA[i]))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
