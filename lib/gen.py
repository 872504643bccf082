#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from specs.py and props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import S
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for i in sorted(S):
        o.write(json.dumps(S[i]) + '\n')
checks = []
na = []
for i in sorted(S):
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 lib/run.py %s' % i, thorough_cmd='python3 lib/run.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=P['technique'], level=P['level'], level_note=P['level_note']))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'No check is built for this property yet; bounded exhaustive enumeration applies to it (see DESIGN.md).')))
json.dump(dict(version=1, setup_cmd='python3 lib/setup.py', checks=checks, not_applicable=na,
               notes='Every check explores a stated finite space completely (lib/run.py, harness/vc.h). No hooks in /repo: the harnesses compile /repo\'s sources directly.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
