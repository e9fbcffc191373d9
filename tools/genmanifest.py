#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs.py and properties.jsonl."""
import json, sys
sys.path.insert(0, '/verif')
from specs import SPECS
NA = {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in SPECS:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')}); continue
    s = SPECS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
      'technique': 'symbolic execution of the LLVM IR of the real code, path conditions and assertions decided by Z3, bounded; counterexamples replayed natively',
      'level': 'model_checking',
      'level_note': 'Exhaustive within bounds (thorough reaches further than quick): ' + s['bounds'] + '. Assumes: ' + ('; '.join(s['assumptions']) or 'nothing beyond the C++ library') + '. Trusts the engine (engine/msym.cpp), clang 18 -O1 IR without optimisation passes, Z3, and the memory-pool model rt/vsrt.cpp; sampled paths are replayed on the g++ build and must agree.'})
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'hooks': {'guard': 'none: no hooks were needed in /repo', 'enable': 'nothing to enable; the checks compile /repo/src as it is', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': 'Replay a counterexample with: python3 check.py replay FILE. Repairs and known findings: known-findings.jsonl. Design: DESIGN.md.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
