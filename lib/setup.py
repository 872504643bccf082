#!/usr/bin/env python3
"""Prebuild every harness (checks rebuild whatever changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from props import PROPS
bad = 0
for i in sorted(PROPS):
    for part in PROPS[i]['parts']:
        for spec in [part['build']] + list(part.get('aux', {}).values()):
            try:
                vbuild.build(**spec)
            except vbuild.BuildError as e:
                bad = 1
                print('%s: %s\n%s' % (i, e, e.out[-3000:]))
    print(i, 'built', flush=True)
sys.exit(bad)
