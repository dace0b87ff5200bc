#!/usr/bin/env python3
"""Nothing to build: see that the toolchains are there and the specs parse."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from lib import core
for jar in core.TLA_CP.split(':'):
    assert os.path.exists(jar), jar
subprocess.check_call(core.JYTHON + ['-c', 'print 1'], stdout=subprocess.DEVNULL)
for name in sorted(os.listdir(core.SPEC)):
    if name.startswith(('MC_', 'Trace')) and name.endswith('.tla'):
        out = subprocess.run(['java', '-cp', core.TLA_CP, 'tla2sany.SANY', name],
                             cwd=core.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if out.returncode or b'*** Errors' in out.stdout:
            sys.exit(out.stdout.decode())
print('ready')
