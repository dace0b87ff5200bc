#!/usr/bin/env python3
"""mutate.py PROP[,PROP] FILE OLD NEW: do the checks notice this change?

Works on a copy of the repository; nothing of it is kept.
"""
import os, shutil, subprocess, sys, tempfile
props, path, old, new = sys.argv[1:5]
old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
tmp = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
os.chmod(tmp, 0o755)
try:
    subprocess.check_call('git -C /repo archive HEAD | tar -x -C ' + tmp, shell=True)
    f = os.path.join(tmp, path)
    s = open(f).read()
    assert s.count(old) >= 1, 'not found'
    open(f, 'w').write(s.replace(old, new, 1))
    for p in props.split(','):
        r = subprocess.run([sys.executable, '/verif/check.py', p],
                           env=dict(os.environ, IPKG_REPO=tmp),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        lines = [l[:160] for l in out.splitlines() if l.startswith(('clause', 'OK'))]
        print({0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR'), p, lines[:3] if r.returncode < 2 else out[-1500:])
finally:
    shutil.rmtree(tmp)
