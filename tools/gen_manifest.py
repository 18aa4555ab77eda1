#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE  # noqa
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
TECH = 'symbolic execution of the LLVM IR of the real code; assertions and branches decided by z3 and a GF(2)-linear normal form; counterexamples replayed natively'
checks, na = [], []
for p in props:
    if p in CHECKS:
        checks.append({
            'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
            'technique': TECH, 'level': 'model_checking',
            'level_note': 'Holds for every value of the symbolic inputs and every choice within the bounds: ' + (CHECKS[p]['bounds']('quick') if callable(CHECKS[p]['bounds']) else CHECKS[p]['bounds'])
                          + ' Trusts clang, the executor, z3, the field model rt/gf_model.cc and the libstdc++ stand-ins of rt/rt.cc; sampled paths are compared with native runs on the real library.'})
    else:
        na.append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'make -s -C engine', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. The checks compile the current sources of /repo to LLVM IR and to native programs in /verif/scratch.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
