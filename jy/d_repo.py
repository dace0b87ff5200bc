import hashlib
import json
import os
import shutil
import tarfile
from cStringIO import StringIO
from drv import start, attempt, cleanup
from crash import Recorder
from ipkg.environments import Environment
from ipkg.exceptions import IpkgException
from ipkg.packages import PackageFile, make_filename
from ipkg.repositories import LocalPackageRepository
from ipkg.build import Formula, File


def sha(path):
    f = open(path, 'rb')
    try:
        return hashlib.sha256(f.read()).hexdigest()
    finally:
        f.close()


def canon(meta):
    m = json.loads(json.dumps(meta))
    m.pop('checksum', None)
    return json.dumps(m, sort_keys=True)


class World(object):

    def __init__(self, driver, scenario):
        self.driver = driver
        self.s = scenario
        self.base = os.path.join(driver.dir, 'repo')
        os.mkdir(self.base)
        # contents: file name, sha, canonical metadata, name
        self.contents = []
        self.new = []
        for c in scenario['contents']:
            self.contents.append((c['file'], c['sum'], canon(c['meta']),
                                  c['meta']['name']))
        self.repo = None

    def register(self, path):
        """A file built by the code: which content is it?"""
        name = os.path.relpath(path, self.base)
        digest = sha(path)
        for i, c in enumerate(self.contents):
            if c[:2] == (name, digest):
                return i + 1
        meta = PackageFile(path).meta
        self.contents.append((name, digest, canon(meta), meta['name']))
        self.new.append(dict(n=meta['name'], f=name, ok=True))
        return len(self.contents)

    def grown(self):
        new, self.new = self.new, []
        return new

    def disk(self, base=None):
        base = base or self.base
        result = {}
        for parent, dirs, files in os.walk(base):
            for name in files:
                path = os.path.join(parent, name)
                rel = os.path.relpath(path, base)
                if not rel.endswith('.ipkg'):
                    continue
                digest = sha(path)
                result[rel] = 0
                for i, c in enumerate(self.contents):
                    if c[:2] == (rel, digest):
                        result[rel] = i + 1
        return result

    def listing(self, meta):
        result = []
        for n in sorted(meta):
            for m in meta[n]:
                i = 0
                f = os.path.join(m.get('name', ''), make_filename(**m))
                for k, c in enumerate(self.contents):
                    if c[1] == m.get('checksum') and c[2] == canon(m) and \
                            c[0] == f:
                        i = k + 1
                result.append(dict(n=n, i=i))
        return result

    def state(self, event):
        st, again = attempt(LocalPackageRepository, self.base)
        event['opened'] = st == 'ok'
        event['s'] = dict(disk=self.disk(), live=self.listing(self.repo.meta),
                          stored=self.listing(again.meta)
                          if st == 'ok' else [])
        return event

    def path(self, i):
        return os.path.join(self.base, self.s['contents'][i - 1]['file'])

    def stage(self, i):
        path = self.path(i)
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        shutil.copyfile(self.s['contents'][i - 1]['path'], path)

    def formula(self, spec):
        """A formula class, its sources and what it installs."""
        src = os.path.join(self.driver.dir, 'src-%s.tar.gz' % spec['name'])
        if not os.path.exists(src):
            tar = tarfile.open(src, 'w:gz')
            info = tarfile.TarInfo('src/README')
            info.size = 2
            tar.addfile(info, StringIO('hi'))
            tar.close()

        def install(formula):
            path = os.path.join(formula.environment.prefix, 'share',
                                spec['name'])
            f = open(path, 'w')
            f.write(spec['data'])
            f.close()
            if spec['fails'] == 'ipkg':
                raise IpkgException('no')
            if spec['fails'] == 'command':
                formula.run_command('false')
        sources = File('/nowhere/x.tar.gz') if spec['fails'] == 'sources' \
            else File(src)
        return type('Made', (Formula,), dict(
            name=spec['name'], version=spec['version'],
            revision=spec['revision'], platform=spec['platform'],
            sources=sources, install=install))

    def operate(self, op, repo):
        kind = op['ev']
        if kind == 'update':
            return attempt(repo.update_metadata)
        if kind == 'save':
            return attempt(repo.meta.save)
        if kind == 'add':
            path = op.get('full') or self.path(op['i'])
            if op['how'] == 'path':
                arg = path
            elif op['how'] == 'obj':
                arg = PackageFile(path)
            else:
                arg = PackageFile(
                    path, json.loads(json.dumps(
                        self.s['contents'][op['i'] - 1]['meta'])))
            return attempt(repo.add, arg)
        if kind == 'refuse':
            return attempt(repo.add, {
                'gone': os.path.join(self.base, 'gone.ipkg'), 'none': None,
                'number': 7, 'spec': 'a==1', 'list': ['a'], 'empty': '',
                'dir': self.base, 'meta': dict(name='a', version='1')
            }[op['how']])
        if kind == 'build':
            return attempt(lambda: repo.build_formula(
                self.formula(op['formula'])()))

    def crashing(self, op):
        """The operation, and what would be there if the process died."""
        aside = os.path.join(self.driver.dir, 'aside')
        live = json.dumps(self.repo.meta)
        recorder = Recorder(self.base, aside)
        with recorder:
            st, value = self.operate(op, self.repo)
        i = op.get('i', 0)
        if op['ev'] == 'build' and st == 'ok':
            i = self.register(value)
        points = []
        for state, copy, what in recorder.points:
            opened, again = attempt(LocalPackageRepository, copy)
            points.append(dict(
                ev='point', op=op['ev'], i=i, opened=opened == 'ok',
                stored=self.listing(again.meta) if opened == 'ok' else [],
                at=what))
            if opened == 'ok' and op['ev'] in ('update', 'add', 'save'):
                done, _ = attempt(again.update_metadata)
                third = attempt(LocalPackageRepository, copy)
                points.append(dict(
                    ev='again', st=done, disk=self.disk(copy),
                    stored=self.listing(third[1].meta)
                    if third[0] == 'ok' else []))
        new = self.grown()
        for k, event in enumerate(points):
            self.driver.emit(new=new if k == 0 else [], **event)
        cleanup(aside)
        return st, value, i, [] if points else new

    def step(self, op):
        kind = op['ev']
        event = dict(op)
        for k in ('formula', 'how', 'crash'):
            event.pop(k, None)
        event['new'] = []
        if kind == 'found':
            return self.found()
        if kind in ('update', 'save', 'add', 'build', 'refuse'):
            if op.get('crash'):
                st, value, i, event['new'] = self.crashing(op)
                event['i'] = i
            else:
                st, value = self.operate(op, self.repo)
                if kind == 'build':
                    event['i'] = self.register(value) if st == 'ok' else 0
                    event['new'] = self.grown()
            if kind == 'build':
                event['fails'] = bool(op['formula']['fails'])
        elif kind == 'reopen':
            st, value = attempt(LocalPackageRepository, self.base)
            if st == 'ok':
                self.repo = value
        elif kind == 'put':
            st, value = 'ok', ''
            self.stage(op['i'])
            event['ev'] = 'files'
        elif kind == 'drop':
            st, value = 'ok', ''
            if os.path.exists(self.path(op['i'])):
                os.unlink(self.path(op['i']))
            event['ev'] = 'files'
        elif kind == 'clutter':
            st, value = 'ok', ''
            for d in ('x/empty/deep', 'emptydir'):
                if not os.path.isdir(os.path.join(self.base, d)):
                    os.makedirs(os.path.join(self.base, d))
            for f in ('README', 'x/empty/deep/file.ipkg.txt'):
                open(os.path.join(self.base, f), 'w').close()
            event['ev'] = 'files'
        event.update(st=st, why='' if st == 'ok' else str(value)[:200])
        self.driver.emit(**self.state(event))

    def found(self):
        """What is listed can be found, and installed."""
        found, installed, whys = [], [], []
        listed = [e['i'] for e in self.listing(self.repo.meta) if e['i']]
        for i in listed:
            f, digest, meta, n = self.contents[i - 1]
            meta = json.loads(meta)
            text = '%s:%s==%s' % (meta['platform'], n, meta['version'])
            st, packages = attempt(lambda: list(self.repo.find(text)))
            if st != 'ok':
                continue
            for package in packages:
                if os.path.isfile(package.path) and \
                        sha(package.path) == digest and \
                        canon(package.meta) == canon(meta):
                    found.append(i)
                    prefix = os.path.join(self.driver.dir, 'env-%d' % i)
                    env = Environment(prefix)
                    env.directories.create()
                    st, why = attempt(env.install, package, self.repo)
                    if st != 'ok':
                        whys.append([i, str(why)])
                    if st == 'ok' and all(
                            os.path.lexists(os.path.join(prefix, p))
                            for p in meta['files']) and \
                            n in env.meta['packages']:
                        installed.append(i)
                    cleanup(prefix)
                    break
        self.driver.emit(ev='found', found=found, installed=installed,
                         why=str(whys), opened=True, new=[])


def run(driver, scenario):
    os.environ['HOME'] = driver.dir
    w = World(driver, scenario)
    for i in scenario['initial']:
        w.stage(i)
    st, w.repo = attempt(LocalPackageRepository, w.base)
    w.driver.emit(**w.state(dict(
        ev='init', st=st, c=[dict(n=c['meta']['name'], f=c['file'],
                                  ok=c['ok']) for c in scenario['contents']])))
    for op in scenario['ops']:
        w.step(op)


start(run)
