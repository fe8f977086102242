#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the runs that decide them."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runs
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in runs.PROPS:
        na.append(dict(property=i, reason='not built yet'))
        continue
    ms = sorted({r['module'] for r in runs.PROPS[i]['quick']})
    checks.append(dict(property=i, quick_cmd='python3 check.py --property %s --tier quick' % i,
                       thorough_cmd='python3 check.py --property %s --tier thorough' % i,
                       technique='TLA+ specification checked with TLC; its behaviours replayed into the code and recorded behaviours of the code judged by it (%s)' % ', '.join(ms),
                       level='model_checking',
                       level_note=runs.NOTES.get(i, 'exhaustive within the bounds of the machines (DESIGN.md); behaviours outside of the bounds are sampled at random')))
json.dump(dict(version=1, setup_cmd='python3 check.py --build', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
