#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/defs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
import defs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    c = defs.CHECKS.get(p['id'])
    if not c: na.append(dict(property=p['id'], reason=defs.NA.get(p['id'], 'check not built yet'))); continue
    checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'], thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
        technique='symbolic execution of LLVM bitcode of the real sources with an SMT solver (z3), all paths within bounds', level=c['level'],
        level_note='bounded: ' + c['bounds']))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
    notes='Every check compiles /repo\'s current sources to bitcode, explores all paths of its harnesses within the stated bounds and replays counterexamples natively before reporting. No hooks in /repo are needed.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
