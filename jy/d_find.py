import json
import os
from drv import start, attempt
from ipkg.repositories import PackageRepository, LocalPackageRepository, \
    FormulaRepository, BaseRepository
from ipkg.requirements import Requirement
from ipkg.build import Formula


def repository(driver, s):
    base = os.path.join(driver.dir, 'repo')
    os.mkdir(base)
    index = {}
    for m in s['metas']:
        index.setdefault(m['name'], []).append(m)
    if s['kind'] in ('package', 'local'):
        f = open(os.path.join(base, 'repository.json'), 'w')
        json.dump(index, f)
        f.close()
        kind = PackageRepository if s['kind'] == 'package' \
            else LocalPackageRepository
        return kind(base)
    if s['kind'] == 'memory':
        repo = PackageRepository(base)
        for n in index:
            repo.meta[n] = index[n]
        return repo
    for k, m in enumerate(s['metas']):
        directory = os.path.join(base, m['name'])
        if not os.path.isdir(directory):
            os.mkdir(directory)
        f = open(os.path.join(directory, '%s-%d.py' % (m['name'], k)), 'w')
        f.write('from ipkg.build import Formula, File\n'
                'class F%d(Formula):\n'
                '    name = %r\n    version = %r\n    revision = %s\n'
                '    platform = %r\n    sources = File("x")\n' % (
                    k, str(m['name']), str(m['version']), m['revision'],
                    str(m['platform'])))
        f.close()
    return FormulaRepository(base)


def run(driver, s):
    os.environ['HOME'] = driver.dir
    repo = repository(driver, s)

    def rank(x):
        for i, m in enumerate(s['metas']):
            if (x.name, x.version, str(x.revision), x.platform) == \
                    (m['name'], m['version'], m['revision'], m['platform']):
                path = getattr(x, 'path', None)
                if path is not None and os.path.normpath(path) != \
                        os.path.join(driver.dir, 'repo', m['name'],
                                     '%(name)s-%(version)s-%(revision)s-'
                                     '%(platform)s.ipkg' % m):
                    return 0
                return i + 1
        return 0
    for j, job in enumerate(s['jobs']):
        def look():
            if job['what'] == 'iter':
                return list(repo)
            r = Requirement(job['text']) if job['obj'] else job['text']
            if job['what'] == 'find':
                return list(repo.find(r))
            return [repo[r]]
        st, value = attempt(look)
        driver.emit(ev=job['what'], j=j, st=st,
                    r=[rank(x) for x in value] if st == 'ok' else [],
                    why='' if st == 'ok' else str(value))


start(run)
