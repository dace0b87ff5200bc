"""Formulas really built (see spec/Build.tla)."""
import hashlib
import json
import os
import platform
import shutil
import tarfile
import tempfile
import helper
from drv import start, attempt
from snap import tree
from ipkg.build import Formula, File
from ipkg.environments import Environment
from ipkg.exceptions import IpkgException
from ipkg.packages import PackageFile
from ipkg.repositories import LocalPackageRepository, PackageRepository

KEYS = ('name', 'version', 'revision', 'platform', 'dependencies',
        'build_prefix', 'envvars')


def same(a, b):
    return all(a.get(k) == b.get(k) for k in KEYS) and \
        sorted(a.get('files', ())) == sorted(b.get('files', ()))


class World(object):

    def __init__(self, driver, s):
        self.driver = driver
        self.s = s
        self.metas = [p['meta'] for p in s['pkgs']]
        self.tmp = os.path.join(driver.dir, 'tmp')
        os.mkdir(self.tmp)
        os.mkdir(os.path.join(driver.dir, 'ctl'))
        tempfile.tempdir = self.tmp
        os.environ['TMPDIR'] = self.tmp
        os.environ['HOME'] = driver.dir
        os.environ['IPKGV_DIR'] = os.path.join(driver.dir, 'ctl')
        self.env = None
        self.n = 0
        self.repodir = s['repodir']
        if s['local']:
            self.repodir = os.path.join(driver.dir, 'repo')
            shutil.copytree(s['repodir'], self.repodir)

    def state(self):
        if self.env is None:
            return dict(rec={}, files={}, cfg={})
        # as it is found by the next process
        env = Environment(self.env.prefix)
        rec = {}
        for package in env.packages:
            rec[package.name] = -1
            for i, m in enumerate(self.metas):
                if m['name'] == package.name and same(m, package.meta):
                    rec[package.name] = i + 1
        cfg = dict((str(k), json.dumps(v, sort_keys=True))
                   for k, v in env.meta['config'].items())
        live = sorted(p.name for p in self.env.packages)
        if live != sorted(rec):
            rec['?'] = -1
        return dict(rec=rec, cfg=cfg, files=tree(
            env.prefix, prefixes=(str(env.prefix),)))

    def create(self):
        prefix = os.path.join(self.driver.dir, str(self.s['prefix']))
        real = os.path.normpath(prefix)
        if self.s['relative']:
            os.chdir(self.driver.dir)
            prefix = str(self.s['prefix'])
        os.makedirs(os.path.dirname(real.rstrip('/')) or '/') \
            if not os.path.isdir(os.path.dirname(real.rstrip('/'))) else None
        self.env = Environment(prefix)
        self.env.directories.create()

    def open_repo(self):
        return LocalPackageRepository(self.repodir) if self.s['local'] \
            else PackageRepository(self.repodir)

    def step(self, op):
        what = op['ev']
        if what == 'build':
            self.build(op)
            return
        if self.env is None:
            return
        if what == 'install':
            st, why = attempt(self.env.install,
                              self.s['pkgs'][op['i'] - 1]['path'],
                              self.open_repo())
        elif what == 'uninstall':
            st, why = attempt(self.env.uninstall, op['n'])
        elif what == 'config':
            st, why = attempt(self.env.set_config, op['k'], op['v'])
        elif what == 'reopen':
            self.env = Environment(self.env.prefix)
        elif what == 'user':
            path = os.path.join(self.env.prefix, op['path'])
            if os.path.lexists(path):
                os.unlink(path)
            else:
                if not os.path.isdir(os.path.dirname(path)):
                    os.makedirs(os.path.dirname(path))
                f = open(path, 'w')
                f.write('mine')
                f.close()
        self.driver.emit(ev='env', s=self.state())

    # -- formulas

    def script(self, directory, k, step, prefix):
        """What the kth command does, and its way of ending."""
        f = open(os.path.join(directory, 'ctl.%d' % k), 'w')
        f.write('%d 0 0 %d %d\n' % (step['reads'], step['status'],
                                    step['signal']))
        f.close()
        out = open(os.path.join(directory, 'do.%d' % k), 'w')
        out.write('set -e\numask 022\n')
        for i, put in enumerate(step['does']):
            path = q(os.path.join(prefix, put['path']))
            out.write('mkdir -p "$(dirname %s)"\nrm -f %s\n' % (path, path))
            data = os.path.join(directory, 'data.%d.%d' % (k, i))
            if put['kind'] in 'fc':
                if put['kind'] == 'f':
                    f = open(data, 'wb')
                    f.write(put['data'].encode('latin-1').replace(
                        '@P', str(prefix)))
                    f.close()
                else:
                    data = os.path.join(self.sources, 'data.txt')
                out.write('cp %s %s\nchmod %o %s\n' % (
                    q(data), path, put['mode'], path))
            elif put['kind'] == 'l':
                out.write('ln -s %s %s\n' % (
                    q(put['target'].replace('@P', prefix)), path))
            elif put['kind'] == 'h':
                out.write('ln %s %s\n' % (
                    q(os.path.join(prefix, put['target'])), path))
        out.close()

    def formula(self, f):
        """A class for it."""
        world = self
        directory = os.environ['IPKGV_DIR']

        def prepare(formula):
            world.prefix = formula.environment.prefix
            world.sources = os.path.join(formula.src_root, f['top'])
            k = 0
            for step in f['real']:
                if step['counts']:
                    world.script(directory, k, step, world.prefix)
                    k += 1

        def custom(formula):
            prepare(formula)
            for step in f['real']:
                if step['how'] == 'raise':
                    raise IpkgException('no')
                kw = {}
                if step['data'] is not None:
                    kw['data'] = step['data'].encode('latin-1')
                if step['cwd']:
                    cwd = step['cwd'].replace('@S', world.sources).replace(
                        '@D', world.driver.dir)
                    if step['mkdir'] and not os.path.isdir(cwd):
                        os.makedirs(cwd)
                    kw['cwd'] = cwd
                args = step['args']
                if isinstance(args, list):
                    args = [str(a) for a in args]
                elif args is not None:
                    args = str(args)
                if step['how'] == 'attr':
                    func = getattr(formula, 'run_' + str(step['name']))
                    if args is None:
                        func(**kw)
                    else:
                        func(args, **kw)
                else:
                    formula.run_command(args, **kw)

        def default(formula):
            prepare(formula)
            Formula.install(formula)
        attrs = dict(
            name=str(f['name']), version=str(f['version']),
            revision=f['revision'],
            platform=f['platform'] and str(f['platform']),
            homepage=f['homepage'], install=default if f['default'] else
            custom, dependencies=tuple(str(d) for d in f['dependencies']),
            sources=source(f['src']),
            patches=tuple(source(p) for p in f['patchfiles']))
        if f['envvars'] is not None:
            attrs['envvars'] = dict((str(k), str(v))
                                    for k, v in f['envvars'].items())
        if f['build_envvars'] is not None:
            attrs['build_envvars'] = dict(
                (str(k), str(v)) for k, v in f['build_envvars'].items())
        if f['default'] and f['configure_args'] is not None:
            attrs['configure_args'] = [str(a) for a in f['configure_args']]
        return type('F', (Formula,), attrs)

    def plain(self, text):
        return text.replace(self.sources, '@S').replace(
            self.prefix, '@P').replace(self.driver.dir, '@D')

    def commands(self, f):
        result = []
        names = sorted(f['build_envvars'] or ())
        for r in helper.read(os.path.join(os.environ['IPKGV_DIR'], 'rep')):
            result.append(dict(
                args=[self.plain(a) for a in r['args']],
                cwd=self.plain(r['cwd']), input=helper.text(r['input']),
                vars=[self.plain(r['env'].get(str(n), '?')) for n in names],
                home=self.plain(r['env'].get('IPKG_ENVIRONMENT', '?'))))
        return result

    def index(self):
        repo = LocalPackageRepository(self.repodir)
        result = []
        for name in repo.meta:
            for m in repo.meta[name]:
                result.append('%(name)s-%(version)s-%(revision)s-'
                              '%(platform)s.ipkg' % m)
        return sorted(result)

    def packages(self, where):
        result = set()
        if os.path.isdir(where):
            for name in os.listdir(where):
                f = open(os.path.join(where, name), 'rb')
                result.add((name, hashlib.sha1(f.read()).hexdigest()))
                f.close()
        return result

    def build(self, op):
        f = op['f']
        os.chdir(self.driver.work)
        self.n += 1
        ctl = os.environ['IPKGV_DIR']
        shutil.rmtree(ctl)
        os.mkdir(ctl)
        self.prefix = self.env.prefix if self.env is not None else '/nowhere'
        self.sources = '/nowhere'
        cls = self.formula(f)
        env = self.env if op['env'] else None
        repo = None
        if op['repo'] or op['indexes']:
            repo = self.open_repo()
        where = os.path.join(self.driver.dir, 'out%d' % self.n)
        os.mkdir(where)
        index0 = self.index() if op['indexes'] else []
        if op['indexes']:
            where = os.path.join(self.repodir, str(f['name']))
        before = self.packages(where)
        kept = set(os.listdir(self.tmp))

        def build():
            formula = cls(env) if not op['verbose'] else cls(
                environment=env, verbose=False)
            if op['indexes']:
                if op['keep']:
                    return repo.build_formula(formula, False)
                return repo.build_formula(formula)
            if op['keep']:
                return formula.build(where, False, repo)
            if repo is None:
                return formula.build(where)
            return formula.build(where, repository=repo)
        st, value = attempt(build)
        made = sorted(self.packages(where) - before)
        left = set(os.listdir(self.tmp)) - kept
        event = dict(st=st, made=made != [], left=len(left), index0=index0,
                     index=self.index() if op['indexes'] else [],
                     log=self.commands(f), why=str(value))
        if st == 'ok':
            event['pkg'] = self.package(value, where)
            event['other'] = self.elsewhere(value)
        for name in left:
            shutil.rmtree(os.path.join(self.tmp, name), True)
        self.driver.emit(ev='build', id=self.s['id'],
                         at=self.s['ops'].index(op), s=self.state(), **dict(dict(
            (k, op[k]) for k in ('env', 'repo', 'indexes', 'keep')), **event))

    def package(self, path, where):
        tar = tarfile.open(path)
        files, names, dup = {}, [], False
        for member in tar.getmembers():
            name = member.name
            dup = dup or name in names
            names.append(name)
            if name == '.ipkg.meta':
                meta = json.load(tar.extractfile(member))
                continue
            if member.issym():
                files[name] = 'l:' + member.linkname
            elif member.isfile() or member.islnk():
                data = tar.extractfile(member).read().replace(
                    str(self.prefix), '@P')
                files[name] = 'f:%o:%s' % (
                    member.mode & 07777, hashlib.sha1(data).hexdigest()[:10])
            else:
                files[name] = 'o:%r' % member.type
        tar.close()
        return dict(
            files=files, dup=dup, listed=meta['files'],
            prefix=self.plain(word(meta['build_prefix'])),
            name=os.path.relpath(path, where),
            meta=dict(name=word(meta['name']), version=word(meta['version']),
                      revision=word(meta['revision']),
                      platform=word(meta['platform']),
                      dependencies=[word(d) for d in
                                    meta['dependencies'] or ()],
                      homepage=word(meta['homepage'] or 'none'),
                      envvars=dict((k, word(v)) for k, v in
                                   (meta['envvars'] or {}).items())))

    def elsewhere(self, path):
        env = Environment(os.path.join(self.driver.dir, 'other%d' % self.n))
        env.directories.create()
        meta = PackageFile(path).meta
        package = PackageFile(path, dict(meta, dependencies=[]))
        st, why = attempt(env.install, package)
        return dict(st=st, why=str(why), files=tree(
            env.prefix, prefixes=(str(env.prefix), str(self.prefix))))


def word(value):
    return value if isinstance(value, basestring) else '%s %r' % (
        type(value).__name__, value)


def q(path):
    return "'" + str(path).replace("'", "'\\''") + "'"


def source(s):
    kw = {}
    if s['sum']:
        kw[str(s['algo'])] = str(s['sum'])
    return File(str(s['path']), **kw)


def run(driver, s):
    os.chdir(driver.work)
    world = World(driver, s)
    if s['env']:
        world.create()
    driver.emit(ev='init', id=s['id'], s=world.state())
    for op in s['ops']:
        world.step(op)
    os.environ.pop('IPKGV_DIR', None)


# the name of this machine has a slash
platform.dist = lambda *args, **kw: ('debian', '7', '')
start(run)
