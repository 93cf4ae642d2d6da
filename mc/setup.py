#!/usr/bin/env python3
"""setup_cmd: builds every checker once (checks rebuild whatever changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as BLD
from jobs import JOBS
v = {}
for j in JOBS.values():
    for x in j['jobs']: v.setdefault(x.get('variant', 'rel'), set()).add(x['bin'])
for k in sorted(v): BLD.build(k, sorted(v[k]))
