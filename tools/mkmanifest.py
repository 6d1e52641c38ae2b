#!/usr/bin/env python3
# Regenerates MANIFEST.json from props.py and properties.jsonl (run in /verif: python3 tools/mkmanifest.py)
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NA, HARNESS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    P = PROPS[i]
    H = HARNESS[P['h']]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='deterministic simulation with fault injection: seeded search over ' + P['tech'],
        level='exploration',
        level_note='Samples schedules and fault sequences (%d executions quick, %d thorough) against %s; a clean run is evidence, not proof. Trusted: the simulator and the stubs named in the evidence.' % (P['quick'], P['thorough'], P['oracle'])))
na = []
for i in ids:
    if i not in PROPS:
        na.append(dict(property=i, reason=NA.get(i, 'not claimed: no check has been built for it')))
m = dict(version=1, setup_cmd='python3 check.py --build-all', checks=checks, not_applicable=na,
         notes='No hooks in /repo: system calls are bound at link time, memory accesses through compiler instrumentation. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
