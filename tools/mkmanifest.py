#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS = json.load(open(os.path.join(V, 'tools', 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CLAIMS['claimed'].get(p['id'])
    if c:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'technique': c.get('technique', 'deductive verification of function contracts on the LLVM IR of the real code (irvc + z3/cvc5), with a bounded contract monitor'),
                       'level': c.get('level', 'proof'), 'level_note': c['note']})
    else:
        na.append({'property': p['id'], 'reason': CLAIMS['not_applicable'][p['id']]})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were added to /repo. Each check extracts the functions under contract from /repo on every run (clang -O0 to LLVM IR to obligations); see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
