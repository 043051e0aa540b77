#!/usr/bin/env python3
"""writes MANIFEST.json from the registry and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'analysis'))
from registry import CHECKS
from manifest_text import TECH, NA
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        t, note = TECH[p]
        checks.append({'property': p, 'quick_cmd': 'python3 analysis/check.py %s --tier quick' % p,
                       'thorough_cmd': 'python3 analysis/check.py %s --tier thorough' % p,
                       'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'No sound static rule for this property has been built.')})
json.dump({'version': 1, 'setup_cmd': 'sh tool/setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis of the resolved program: a clang front-end exporter (tool/dlbfacts.cpp) plus repository-specific analyses (analysis/).'},
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not applicable')
