#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
CLAIMED = open('/verif/claimed.txt').read().split()
NA = {}
NOTE = ('Every obligation generated from the current source of the functions under contract (and of everything they call inside the '
        'repository, inlined or by contract) is discharged for all inputs, iterations and interleavings of the modelled '
        'goroutines. Assumed: the contracts of dependencies, channels and callbacks listed in the evidence, the translation of Go '
        '(go/ssa) to SMT by gvc, integers without overflow unless stated, and the solvers.')
checks = [{'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']}", 'thorough_cmd': f"python3 check.py {p['id']} thorough",
           'technique': 'contracts on the real Go code, discharged function by function (gvc: go/ssa to SMT; z3, cvc5)',
           'level': 'proof', 'level_note': NOTE} for p in props if p['id'] in CLAIMED]
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'contracts for this part are not finished')} for p in props if p['id'] not in CLAIMED]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks, 'not_applicable': na},
          open('/verif/MANIFEST.json', 'w'), indent=1)
