#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks there are."""
import ast
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')


def note(path):
    doc = ast.get_docstring(ast.parse(open(path).read()))
    return ' '.join(doc.split('\n\n', 1)[-1].split())


checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    path = os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py')
    if not os.path.exists(path):
        missing.append(dict(property=p['id'], reason='not built yet'))
        continue
    technique = 'explicit-state model checking of the real code (bounded exhaustive exploration)'
    if p['id'] == 'C05':
        technique = 'stateless model checking: all thread schedules up to a preemption bound'
    checks.append(dict(
        property=p['id'], technique=technique, level='model_checking',
        quick_cmd='python3 check.py %s --tier quick' % p['id'],
        thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        level_note=note(path)))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=missing,
         notes='See DESIGN.md. No hooks are needed in /repo; its commits are fixes.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(missing), 'missing')
