#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from harness/props.py and harness/specs.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/harness']
import props, specs
with open(V + '/properties.jsonl', 'w') as f:
    for k in sorted(props.P):
        f.write(json.dumps({a: b for a, b in props.P[k].items() if not a.startswith('_')}) + '\n')
checks, na = [], []
for k in sorted(props.P):
    if k in props.NA:
        na.append(dict(property=k, reason=props.NA[k]))
    elif specs.CHECKS.get(k):
        thorough = any(h.tier == 'thorough' for h in specs.CHECKS[k])
        checks.append(dict(property=k, quick_cmd='./check %s --tier quick' % k, thorough_cmd='./check %s --tier thorough' % k,
                           technique='bounded symbolic execution of the real C source with CBMC (SAT), counterexamples and witnesses replayed on a native ASan/UBSan build',
                           level='model_checking', level_note=props.P[k]['_note']))
    else:
        na.append(dict(property=k, reason='no check built yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
