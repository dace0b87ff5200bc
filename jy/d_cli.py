"""Commands of the command line, really run (see spec/Cli.tla)."""
import json
import logging
import os
import platform
import shutil
import subprocess
import sys
import tempfile
import helper
from drv import start
from snap import tree
# the name of this machine has a slash
platform.dist = lambda *args, **kw: ('debian', '7', '')
import pkg_resources
from ipkg.cli import ipkg
from ipkg.environments import Environment
from ipkg.packages import PackageFile
from ipkg.repositories import LocalPackageRepository

KEYS = ('name', 'version', 'revision', 'platform', 'dependencies',
        'build_prefix', 'envvars')
FORMULA = '''
import os
from ipkg.build import Formula, File


class %(cls)s(Formula):
    name = %(name)r
    version = %(version)r
    revision = %(revision)r
    platform = %(platform)r
    sources = File(%(source)r)
    dependencies = %(deps)r

    def install(self):
        f = open(os.path.join(self.environment.prefix, 'share',
                              'made-%(cls)s'), 'w')
        f.write('x')
        f.close()
        self.run_command(%(command)r)
'''
REAL = '''import platform
platform.dist = lambda *args, **kw: ('debian', '7', '')
from ipkg.cli import ipkg
ipkg()
'''


def same(a, b):
    return all(a.get(k) == b.get(k) for k in KEYS) and \
        sorted(a.get('files', ())) == sorted(b.get('files', ()))


class World(object):

    def __init__(self, driver, s):
        driver.dir = driver.dir.encode('utf-8')
        self.driver = driver
        self.s = s
        self.metas = [p['meta'] for p in s['pkgs']]
        self.places = {}
        self.at = dict(D=driver.dir, I=str(s['repodir']),
                       R=os.path.join(driver.dir, 'repo'),
                       O=os.path.join(driver.dir, 'out'),
                       F=os.path.join(driver.dir, 'formulas'))
        for name, where in s['places'].items():
            self.places[name] = self.at[name] = os.path.join(
                driver.dir, str(where))
        for k, p in enumerate(s['pkgs'], 1):
            self.at[str(k)] = str(p['path'])
        tempfile.tempdir = os.path.join(driver.dir, 'tmp')
        for path in (tempfile.tempdir, self.at['R'], self.at['O'],
                     self.at['F'], os.path.join(driver.dir, 'else'),
                     os.path.join(driver.dir, 'ctl')):
            os.mkdir(path)
        os.environ['TMPDIR'] = tempfile.tempdir
        os.environ['HOME'] = driver.dir
        os.environ['IPKGV_DIR'] = os.path.join(driver.dir, 'ctl')
        os.environ['IPKGV_MARK'] = str(s['mark'])
        for f in s['files']:
            path = self.path(f['path'])
            out = open(path, 'w')
            out.write(f['data'].encode('latin-1'))
            out.close()
        for f in s['formulas']:
            path = self.path(f['path'])
            if not os.path.isdir(os.path.dirname(path)):
                os.makedirs(os.path.dirname(path))
            out = open(path, 'w')
            out.write(FORMULA % dict(
                (k, tuple(map(str, v)) if k == 'deps' else
                 v if isinstance(v, int) else str(v))
                for k, v in f.items()))
            out.close()

    def path(self, text):
        """The path this stands for."""
        text = text.encode('utf-8')
        if not text.startswith('@'):
            return text
        name, slash, rest = text[1:].partition('/')
        return self.at[name] + slash + rest

    def state(self):
        envs = {}
        for name, prefix in self.places.items():
            env = Environment(prefix)
            rec, cfg = {}, {}
            for package in env.packages:
                rec[package.name] = -1
                for i, m in enumerate(self.metas):
                    if m['name'] == package.name and same(m, package.meta):
                        rec[package.name] = i + 1
            for k in env.meta['config']:
                cfg[k] = env.get_config(k)
            envs[name] = dict(rec=rec, cfg=cfg, here=os.path.isdir(prefix),
                              files=tree(prefix, prefixes=(prefix,)))
        repo = LocalPackageRepository(self.at['R'])
        index, files = [], []
        for name in repo.meta:
            for m in repo.meta[name]:
                index.append('%(name)s-%(version)s-%(revision)s-'
                             '%(platform)s.ipkg' % m)
        for parent, _, names in os.walk(self.at['R']):
            files.extend(n for n in names if n.endswith('.ipkg'))
        return dict(envs=envs, repo=dict(index=sorted(index),
                                         files=sorted(files)),
                    out=sorted(os.listdir(self.at['O'])))

    def packages(self):
        return set(os.path.join(parent, n) for base in 'RO'
                   for parent, _, names in os.walk(self.at[base])
                   for n in names if n.endswith('.ipkg'))

    def built(self, paths, cwd):
        """The environments in which these packages were built."""
        result = set()
        for path in paths:
            prefix = os.path.realpath(os.path.join(
                cwd, PackageFile(path).meta['build_prefix']))
            result.add(([n for n, where in self.places.items()
                         if os.path.realpath(where) == prefix] + [''])[0])
        return sorted(result)

    def user(self, op):
        path = os.path.join(self.at['R'], str(op['name']),
                            os.path.basename(self.path(op['path'])))
        if os.path.exists(path):
            os.unlink(path)
        else:
            if not os.path.isdir(os.path.dirname(path)):
                os.mkdir(os.path.dirname(path))
            shutil.copyfile(self.path(op['path']), path)
        self.driver.emit(ev='user', id=self.s['id'], w=self.state())

    def here(self, argv):
        """Run it in this process."""
        out = os.path.join(self.driver.dir, 'stdout')
        mine = sys.argv, sys.stdout, sys.stderr
        sys.argv = ['ipkg'] + argv
        sys.stdout = open(out, 'wb')
        errors = os.path.join(self.driver.dir, 'stderr')
        sys.stderr = open(errors, 'w')
        st = 'ok'
        try:
            ipkg()
        except SystemExit as exc:
            if exc.code not in (None, 0):
                sys.stderr.flush()
                st = 'exit %r: %s' % (exc.code, open(errors).read()[-200:])
        except:
            st = '%s: %s' % sys.exc_info()[:2]
        finally:
            sys.stdout.close()
            sys.stderr.close()
            sys.argv, sys.stdout, sys.stderr = mine
            del logging.getLogger('ipkg').handlers[:]
        return st, open(out, 'rb').read()

    def apart(self, argv):
        """Run it in another process."""
        out = open(os.path.join(self.driver.dir, 'stdout'), 'wb')
        err = open(os.devnull, 'w')
        code = subprocess.call(self.driver.params['jython'] +
                               ['-c', REAL] + argv, stdout=out, stderr=err)
        out.close()
        err.close()
        return 'ok' if code == 0 else 'exit %d' % code, \
            open(os.path.join(self.driver.dir, 'stdout'), 'rb').read()

    def run(self, op):
        o = op['o']
        os.chdir(self.path(op['cwd']))
        os.environ.pop('IPKG_ENVIRONMENT', None)
        if o['cur']:
            os.environ['IPKG_ENVIRONMENT'] = self.places[o['cur']]
        ctl = os.environ['IPKGV_DIR']
        shutil.rmtree(ctl)
        os.mkdir(ctl)
        f = open(os.path.join(ctl, 'ctl.0'), 'w')
        f.write('0 %d 0 %d %d\n' % (op['prints'], op['status'],
                                    op['signal']))
        f.close()
        argv = [self.path(a) for a in op['argv']]
        before = self.packages()
        st, out = (self.apart if op['apart'] else self.here)(argv)
        os.chdir(self.driver.work)
        os.environ.pop('IPKG_ENVIRONMENT', None)
        event = dict(o=o, why=st, st='ok' if st == 'ok' else 'ipkg',
                     out=[], vars={}, path=[], mark=self.s['mark'],
                     export='no', ran=[], dirs=False,
                     built=self.built(self.packages() - before,
                                      self.path(op['cwd'])),
                     left=len(os.listdir(tempfile.tempdir)))
        for name in os.listdir(tempfile.tempdir):
            shutil.rmtree(os.path.join(tempfile.tempdir, name))
        if o['cmd'] in ('list', 'get'):
            event['out'] = out.decode('utf-8', 'replace').splitlines()
        elif o['cmd'] == 'mkenv':
            event['dirs'] = all(os.path.isdir(os.path.join(
                self.places[o['env']], d)) for d in
                ('', 'bin', 'sbin', 'include', 'lib', 'share', 'share/man',
                 'lib/pkgconfig', 'tmp'))
        elif o['cmd'] == 'printenv':
            shown, ways = {}, set()
            for line in out.splitlines():
                ways.add(line.startswith('export '))
                if line.startswith('export '):
                    line = line[7:]
                name, equals, value = line.partition('=')
                shown[name if equals and name not in shown else '?'] = value
            event['export'] = 'yes' if ways == set([True]) else \
                'no' if ways == set([False]) else 'mixed'
            self.show(event, shown)
        elif o['cmd'] in ('exec', 'shell'):
            reports = helper.read(os.path.join(ctl, 'rep'))
            event['ran'] = [r['args'] for r in reports]
            if reports:
                self.show(event, reports[0]['env'])
        self.driver.emit(ev='cli', id=self.s['id'], w=self.state(), **event)

    def show(self, event, shown):
        prefix = self.places[event['o']['env']]
        names = [str(n) for n in self.s['varnames']] + \
            ['IPKG_ENVIRONMENT', 'IPKGV_MARK', '?']
        event['vars'] = dict((n, shown[n].replace(prefix, '@P'))
                             for n in names if n in shown)
        event['path'] = shown.get('PATH', '').replace(prefix,
                                                      '@P').split(':')


def run(driver, s):
    os.chdir(driver.work)
    world = World(driver, s)
    driver.emit(ev='init', id=s['id'], w=world.state())
    for op in s['ops']:
        if op['ev'] == 'user':
            world.user(op)
        else:
            world.run(op)
    for name in ('IPKGV_DIR', 'IPKGV_MARK'):
        os.environ.pop(name, None)


start(run)
