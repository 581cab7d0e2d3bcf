#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'harness'))
import specs
NOTES = specs.NOTES if hasattr(specs, 'NOTES') else {}
TECH = specs.TECH if hasattr(specs, 'TECH') else {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i not in specs.SPECS: continue
    s = specs.SPECS[i]
    checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
        technique=TECH.get(i, 'randomized workload on the real code under AddressSanitizer/UBSan/LeakSanitizer with an online oracle over model trees'),
        level='exploration', level_note=NOTES.get(i, 'Held on every execution generated for the seed; trusts the compiler, the sanitizers and the independent reference in harness/.')))
na = [dict(property=p['id'], reason='check not built yet') for p in props if p['id'] not in specs.SPECS]
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=na,
    notes='No hooks in /repo: every monitor observes through the public interface (visitors, accessors, return values) and through compiler instrumentation of the headers.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
