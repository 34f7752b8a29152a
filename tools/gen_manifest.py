#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.dont_write_bytecode = True
import registry as R
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in R.PROPS:
        c = R.PROPS[i]
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='VERIF_TIER=thorough ./check ' + i,
                           technique=c.get('technique', 'property-based testing: generated operands against an independent reference model, tape shrinking'),
                           level=c.get('level', 'exploration'),
                           level_note=c.get('note', 'Search over generated inputs, not a proof. Trusts the reference model in lib/gen.h, the compiler and libgomp.')))
    else:
        na.append(dict(property=i, reason=R.NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='./check ID decides one property; ./check ID --replay FILE reruns a failing case. No hooks in /repo: harnesses include its headers and compile its sources.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
