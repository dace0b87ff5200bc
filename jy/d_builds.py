import json
import os
import shutil
import tarfile
import tempfile
from cStringIO import StringIO
from drv import start, attempt
from ipkg.build import Formula, File
from ipkg.environments import Environment
from ipkg.exceptions import IpkgException
from ipkg.repositories import LocalPackageRepository, BaseRepository, \
    FormulaRepository

TEXT = '''
import os
from ipkg.build import Formula, File
from ipkg.exceptions import IpkgException

class F%(k)d(Formula):
    name = %(name)r
    version = %(version)r
    revision = %(revision)r
    platform = %(platform)r
    dependencies = %(dependencies)r
    sources = %(sources)s

    def install(self):
        f = open(%(log)r, 'a')
        f.write('%(k)d\\n')
        f.close()
        f = open(os.path.join(self.environment.prefix, 'share',
                              'made-%(k)d'), 'w')
        f.write('%(k)d')
        f.close()
        %(fail)s
'''
FAIL = {'ipkg': "raise IpkgException('no')",
        'command': "self.run_command('false')",
        'sources': 'pass', '': 'pass'}


def run(driver, s):
    os.environ['HOME'] = driver.dir
    os.environ['TMPDIR'] = driver.dir
    tempfile.tempdir = driver.dir
    base = os.path.join(driver.dir, 'repo')
    formulas = os.path.join(driver.dir, 'formulas')
    log = os.path.join(driver.dir, 'log')
    open(log, 'w').close()
    os.mkdir(base)
    os.mkdir(formulas)
    src = os.path.join(driver.dir, 'src.tar.gz')
    tar = tarfile.open(src, 'w:gz')
    info = tarfile.TarInfo('src/README')
    info.size = 2
    tar.addfile(info, StringIO('hi'))
    tar.close()
    repo = LocalPackageRepository(base)
    for p in s['repo']:
        directory = os.path.join(base, p['name'])
        if not os.path.isdir(directory):
            os.mkdir(directory)
        shutil.copyfile(p['path'], os.path.join(directory, p['file']))
    repo.update_metadata()
    env = None
    if s['c']['hasenv']:
        env = Environment(os.path.join(driver.dir, 'env'))
        env.directories.create()
        for p in s['env']:
            env.install(p['path'])
    classes = []
    for k, f in enumerate(s['formulas']):
        fails = s['why'] if f['kind'] == 'fail' else ''
        sources = repr(src)
        if fails == 'sources':
            sources = repr('/nowhere/x.tar.gz')
        sources = 'File(%s)' % sources
        if f['kind'] == 'incomplete':
            sources = 'None'
        directory = os.path.join(formulas, str(f['name']))
        if not os.path.isdir(directory):
            os.mkdir(directory)
        path = os.path.join(directory, '%s-%d.py' % (f['name'], k + 1))
        out = open(path, 'w')
        out.write(TEXT % dict(
            k=k + 1, name=str(f['name']), version=str(f['version']),
            revision=f['revision'], platform=str(f['platform']),
            dependencies=tuple(str(d) for d in f['dependencies']),
            sources=sources, log=log, fail=FAIL[fails]))
        out.close()
        if s['how'] != 'files':
            classes.append(Formula.from_file(path))
    if s['how'] == 'list':
        source = classes
    elif s['how'] == 'memory':
        source = FormulaRepository(os.path.join(driver.dir, 'repo'))
        for cls in classes:
            source.meta[cls.name].append(cls)
    else:
        source = FormulaRepository(formulas)

    def identify(path):
        tar = tarfile.open(fileobj=open(path, 'rb'))
        for name in tar.getnames():
            if name.startswith('share/made-'):
                k = int(name[len('share/made-'):])
                f = s['formulas'][k - 1]
                meta = json.load(tar.extractfile('.ipkg.meta'))
                if all(str(meta[x]) == str(f[x]) for x in
                       ('name', 'version', 'revision', 'platform')) and \
                        list(meta['dependencies']) == f['dependencies']:
                    return k
        return 0

    def build():
        if env is None:
            return repo.build_formulas(source)
        return repo.build_formulas(source, env)
    st, value = attempt(build)
    result = [identify(p) for p in value] if st == 'ok' else []
    again = LocalPackageRepository(base)
    index, found = [], []
    for n in again.meta:
        for m in again.meta[n]:
            index.append(n)
    if st == 'ok':
        for k in result:
            if not k:
                continue
            f = s['formulas'][k - 1]
            for p in again.find('%(platform)s:%(name)s==%(version)s' % f):
                if str(p.revision) == str(f['revision']) and \
                        os.path.isfile(p.path) and identify(p.path) == k:
                    found.append(k)
                    break
    ran = [int(x) for x in open(log).read().split()]
    driver.emit(ev='builds', st=st, r=result, x=ran, l=index, found=found,
                why='' if st == 'ok' else str(value))


start(run)
