#!/usr/bin/env python3
"""Writes MANIFEST.json from vf/registry.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'vf'))
import registry as R
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
ids = [p['id'] for p in props]
checks = []
for i in ids:
    if i in R.CHECKS:
        c = R.CHECKS[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
            technique=R.TECH[i][0], level=c[2], level_note=R.TECH[i][1]))
na = [dict(property=i, reason=R.NA.get(i, 'check not built yet')) for i in ids if i not in R.CHECKS]
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: every specification is bound through the public interface.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not claimed')
