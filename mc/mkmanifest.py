#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from mc/jobs.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT + '/mc')
from jobs import JOBS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
T = {}
checks = []
for p in props:
    if p not in JOBS: continue
    j = JOBS[p]
    checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                       technique=j.get('technique', 'exhaustive bounded exploration of the real code against a reference model'),
                       level='model_checking', level_note=j.get('note', 'Every case within the stated alphabet and bounds is executed on the implementation and compared with the reference model; nothing is sampled.')))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'No check has been built for it yet.')) for p in props if p not in JOBS]
m = dict(version=1, setup_cmd='python3 mc/setup.py', checks=checks, not_applicable=na,
         notes='All checks drive the real code built from /repo\'s working tree; no hooks in /repo are needed. See DESIGN.md.')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1); open(ROOT + '/MANIFEST.json', 'a').write('\n')
