#!/usr/bin/env python3
"""Write MANIFEST.json from contracts/props.json and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
units = json.load(open(here + '/contracts/props.json'))
na = json.load(open(here + '/contracts/not_applicable.json'))
notes = json.load(open(here + '/contracts/notes.json'))
common = ("Trusted: the translation from go/ssa to verification conditions and the SMT solvers (z3, cvc5); the assumed contracts of "
          "library functions listed in the evidence file. Integers are mathematical, nil dereferences end the path. ")
checks = []
for p in props:
    if p not in units:
        assert p in na, p
        continue
    lvl = units[p].get('level', 'proof')
    checks.append({
        'property': p,
        'quick_cmd': 'bash check.sh ' + p,
        'thorough_cmd': 'bash check.sh ' + p,
        'technique': notes[p][0],
        'level': lvl,
        'level_note': notes[p][1] + ' ' + common,
    })
m = {'version': 1, 'setup_cmd': 'bash build.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': na[p]} for p in props if p not in units],
     'notes': 'gcv/ is the verifier, contracts/ the contracts, harness/ the bounded runtime checks of the same contracts (used to look for a failing input). See DESIGN.md.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
