#!/usr/bin/env python3
"""Nothing to build ahead: each check compiles /repo's current tree itself.

Verifies that what the checks need is there.
"""
import os
import shutil
import subprocess
import sys

PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') \
    else sys.executable
if not shutil.which('gcc'):
    sys.exit('gcc is missing')
inc = subprocess.check_output([PY, '-c', 'import sysconfig;'
                               'print(sysconfig.get_path("include"))'])
if not os.path.exists(os.path.join(inc.decode().strip(), 'Python.h')):
    sys.exit('Python.h is missing')
print('ok')
