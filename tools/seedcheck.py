#!/usr/bin/env python3
"""seedcheck.py ID...: is this planted bug a good one, and is it caught?

Works on a copy of the repository; nothing of it is kept.
"""
import json, os, shutil, subprocess, sys, tempfile
BASE = 'bf3f120'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def check(sid, tests=True):
    where = '/verif/seeded/' + sid
    meta = json.load(open(where + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    os.chmod(tmp, 0o755)
    try:
        repo, demo = tmp + '/repo', tmp + '/demo'
        sh(['git', 'clone', '-q', '/repo', repo])
        os.chmod(repo, 0o755)
        if os.path.isdir('/repo/ipkg.egg-info'):
            shutil.copytree('/repo/ipkg.egg-info', repo + '/ipkg.egg-info')
        os.mkdir(demo)
        for n in os.listdir(where):
            if n not in ('patch.diff', 'meta.json'):
                shutil.copy(where + '/' + n, demo)
        clean = sh(['bash', demo + '/demo.sh'], cwd=repo)
        r = sh(['git', 'apply', where + '/patch.diff'], cwd=repo)
        if r.returncode:
            return print(sid, 'DOES NOT APPLY', r.stdout.decode())
        # only lines of the original repository
        mine = []
        for f in sh(['git', 'diff', '--name-only'], cwd=repo).stdout.decode().split():
            blame = sh(['git', 'blame', '-s', 'HEAD', '--', f], cwd=repo).stdout.decode('utf-8').splitlines()
            diff = sh(['git', 'diff', '-U0', f], cwd=repo).stdout.decode().splitlines()
            at = 0
            for l in diff:
                if l.startswith('@@'):
                    at = int(l.split()[1][1:].split(',')[0])
                elif l.startswith('-') and not l.startswith('---'):
                    if not blame[at - 1].startswith('^' + BASE):
                        mine.append(l)
                    at += 1
        broken = sh(['bash', demo + '/demo.sh'], cwd=repo)
        passed = ''
        if tests:
            sh(['bash', '/opt/vp/test.sh', tmp + '/out.json'], cwd=repo) if False else None
            env = dict(os.environ)
            t = sh(['bash', '-c', 'sed "s#/repo\\b#%s#g" /opt/vp/test.sh >%s/t.sh; sed "s#/repo\\b#%s#g" /opt/vp/env.sh >%s/env.sh; sed -i "s#/opt/vp/env.sh#%s/env.sh#" %s/t.sh; bash %s/t.sh %s/out.json' % ((repo, tmp, repo, tmp, tmp, tmp, tmp, tmp))], cwd=repo)
            passed = [l for l in t.stdout.decode().splitlines() if 'passed,' in l]
        r = sh([sys.executable, '/verif/check.py', meta['property']],
               env=dict(os.environ, IPKG_REPO=repo))
        clauses = [l[:90] for l in r.stdout.decode().splitlines() if l.startswith('clause')]
        print(sid, 'demo clean=%d patched=%d' % (clean.returncode, broken.returncode),
              passed, 'MINE' if mine else '', {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR'), clauses[:1], flush=True)
        if clean.returncode or not broken.returncode:
            print(clean.stdout.decode()[-800:], broken.stdout.decode()[-800:])
        if mine:
            print(mine)
    finally:
        shutil.rmtree(tmp)


for sid in sys.argv[1:] or sorted(os.listdir('/verif/seeded')):
    check(sid)
