#!/usr/bin/env python3
"""MANIFEST.json from spec.py and properties.jsonl"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import spec
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = 'symbolic execution of the LLVM IR of /repo\'s Rust code (symir) with z3 deciding every branch and assertion; counterexamples replayed natively'
checks, na = [], []
for p in props:
    i = p['id']
    if i in spec.PROPS:
        P = spec.PROPS[i]
        c = {'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
             'technique': P.get('technique', TECH), 'level': 'model_checking', 'level_note': P.get('note', spec.NOTE)}
        checks.append(c)
    else:
        na.append({'property': i, 'reason': spec.NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py build', 'checks': checks, 'not_applicable': na, 'notes': spec.NOTES}
if spec.HOOKS:
    m['hooks'] = spec.HOOKS
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
