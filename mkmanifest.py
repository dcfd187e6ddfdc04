#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and claims.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f'{here}/properties.jsonl')]
claims = json.load(open(f'{here}/claims.json'))
checks, na = [], []
for p in props:
    c = claims.get(p['id'])
    if c and 'not_applicable' not in c:
        checks.append({
            'property': p['id'],
            'quick_cmd': f"bash check.sh {p['id']}",
            'thorough_cmd': f"VERIF_TIER=thorough bash check.sh {p['id']}",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': c.get('technique', 'contract-based deductive verification of the Go source (govc: symbolic execution of go/ssa against contracts, obligations discharged by z3 and cvc5)'),
            'level': 'proof',
            'level_note': c['note'],
        })
    else:
        na.append({'property': p['id'], 'reason': (c or {}).get('not_applicable', 'no check yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(f'{here}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
