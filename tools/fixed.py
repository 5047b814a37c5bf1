#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: note a repaired defect."""
import json
import os
import sys

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                    'known_findings.json')
with open(path) as f:
    d = json.load(f)
d['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4]))
with open(path, 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
