import os
import json
import hashlib
from drv import start, attempt, cleanup
from snap import tree
from crash import Recorder
from ipkg.environments import Environment
from ipkg.packages import PackageFile
from ipkg.repositories import PackageRepository

KEYS = ('name', 'version', 'revision', 'platform', 'dependencies',
        'build_prefix', 'envvars')


def same(a, b):
    return all(a.get(k) == b.get(k) for k in KEYS) and \
        sorted(a.get('files', ())) == sorted(b.get('files', ()))


class World(object):

    def __init__(self, driver, scenario):
        self.driver = driver
        self.s = scenario
        self.metas = [p['meta'] for p in scenario['pkgs']]
        self.prefix = os.path.join(driver.dir, scenario.get('prefix', 'env'))
        self.env = None
        self.home = self.prefix.encode('utf-8')

    def index(self, name, data):
        for i, m in enumerate(self.metas):
            if m['name'] == name and same(m, data):
                return i + 1
        return -1

    def state(self, env):
        rec, dup = {}, False
        for package in env.packages:
            dup = dup or package.name in rec
            rec[package.name] = self.index(package.name, package.meta)
        dup = dup or sorted(rec) != sorted(env.meta['packages'])
        cfg = {}
        for k in env.meta['config']:
            cfg[k] = json.dumps(env.get_config(k), sort_keys=True)
        return dict(rec=rec, cfg=cfg), dup

    def variables(self, env):
        result = {}
        for name in self.s['varnames']:
            if name in env.variables:
                result[name] = str(env.variables[name]).replace(
                    self.prefix, '@P')
        return result

    def digest(self, env):
        return hashlib.sha1(json.dumps(env.meta, sort_keys=True)).hexdigest()

    def observe(self, **event):
        s, dup = self.state(self.env)
        files = tree(self.prefix, prefixes=(self.home,))
        s['files'] = files
        event.update(s=s, dup=dup, m=self.digest(self.env),
                     live=self.variables(self.env))
        st, again = attempt(Environment, self.prefix)
        event['opened'] = st == 'ok'
        if st == 'ok':
            s2, dup2 = self.state(again)
            s2['files'] = files
            event.update(s2=s2, dup=dup or dup2, m2=self.digest(again),
                         again=self.variables(again))
        self.driver.emit(**event)

    def package(self, op):
        """What is given to install, for this operation."""
        how = op['how']
        if how == 'text':
            return op['text']
        if how == 'bad':
            what = op['what']
            if what == 'textfile':
                path = os.path.join(self.driver.dir, 'not-a-package.ipkg')
                f = open(path, 'w')
                f.write('hello\n')
                f.close()
                return path
            return {'none': None, 'int': 42, 'list': ['a'],
                    'missing': os.path.join(self.driver.dir, 'nosuch.ipkg'),
                    'norepo': 'a', 'directory': self.driver.dir,
                    'nosuch': 'nosuch>=1'}[what]
        p = self.s['pkgs'][op['i'] - 1]
        if how == 'path':
            return p['path']
        if how == 'unicode':
            return unicode(p['path'])
        if how == 'obj':
            return PackageFile(p['path'])
        return PackageFile(p['path'], dict(p['meta']))

    def step(self, op):
        if not op.get('crash'):
            st, why = self.do(op)
            self.observe(st=st, why=str(why)[:200], **op)
            return
        # what is left if the process dies
        aside = os.path.join(self.driver.dir, 'aside')
        recorder = Recorder(self.prefix, aside, limit=op['crash'])
        with recorder:
            st, why = self.do(op)
        self.observe(st=st, why=str(why)[:200], **op)
        mine = self.env, self.prefix
        for state, copy, what in recorder.points:
            self.prefix = copy = copy.encode('utf-8')
            opened = self.left(copy, ev='point', at=what)
            if opened:
                done, why = self.do(op)
                self.left(copy, ev='again', at=what, done=done,
                          why=str(why)[:200])
            cleanup(copy)
        self.env, self.prefix = mine

    def left(self, copy, **event):
        st, env = attempt(Environment, copy)
        event.update(opened=st == 'ok', s={})
        if st == 'ok':
            self.env = env
            event['s'], dup = self.state(env)
            event['s']['files'] = tree(copy, prefixes=(copy, self.home))
        self.driver.emit(**event)
        return st == 'ok'

    def do(self, op):
        kind = op['ev']
        if kind == 'install':
            repo = PackageRepository(self.s['repodir']) if op['repo'] \
                else None

            def install():
                package = self.package(op)
                if repo is None and op.get('short'):
                    self.env.install(package)
                else:
                    self.env.install(package, repo)
            st, why = attempt(install)
        elif kind == 'uninstall':
            st, why = attempt(self.env.uninstall, op['n'])
        elif kind == 'config':
            value = json.loads(op['v'])
            st, why = attempt(self.env.set_config, op['k'], value)
        elif kind == 'reopen':
            st, why = attempt(Environment, self.prefix)
            if st == 'ok':
                self.env, why = why, None
        elif kind == 'user':
            path = os.path.join(self.prefix, op['path'])
            st, why = 'ok', None
            if os.path.lexists(path):
                os.unlink(path)
            elif op.get('create', True):
                if not os.path.isdir(os.path.dirname(path)):
                    os.makedirs(os.path.dirname(path))
                f = open(path, 'w')
                f.write('mine')
                f.close()
        return st, why


def run(driver, scenario):
    os.environ['HOME'] = driver.dir
    w = World(driver, scenario)
    prefix = w.prefix
    if scenario.get('relative'):
        os.chdir(driver.dir)
        prefix = os.path.relpath(prefix, driver.dir)
    w.env = Environment(prefix)
    w.env.directories.create()
    for link, target in scenario['links'].items():
        if not os.path.isdir(os.path.join(w.prefix, target)):
            os.mkdir(os.path.join(w.prefix, target))
        os.symlink(target, os.path.join(w.prefix, link))
    w.observe(ev='init', st='ok')
    for op in scenario['ops']:
        w.step(op)


start(run)
