import os
from collections import defaultdict
from drv import start, attempt
from ipkg import dependencies
from ipkg.environments import Environment
from ipkg.packages import MetaPackage, PackageFile
from ipkg.repositories import BaseRepository, PackageRepository
from ipkg.build import Formula
from ipkg.exceptions import IpkgException

SEED = [0]


def node_hash(node):
    """Nodes meet in sets: make their order depend on the scenario."""
    obj = node.obj
    return hash((SEED[0], getattr(obj, 'name', ''),
                 str(getattr(obj, 'version', '')),
                 str(getattr(obj, 'revision', '')))) & 0x7fffffff


if hasattr(dependencies, 'Node') and \
        '__hash__' not in vars(dependencies.Node) and \
        '__eq__' not in vars(dependencies.Node):
    dependencies.Node.__hash__ = node_hash


def make_formula(m):
    return type('F', (Formula,), dict(
        name=m['name'], version=m['version'], revision=int(m['revision']),
        dependencies=tuple(m['dependencies']), platform=m['platform'],
        sources='none'))


def run(driver, scenario):
    os.environ['HOME'] = driver.dir
    metas = scenario['pkgs']
    rank = {}
    for i, m in enumerate(metas):
        rank[m['name'], m['version'], str(m['revision'])] = i + 1
    for job in scenario['jobs']:
        SEED[0] = job['seed']
        env = None
        if job['env'] is not None:
            env = Environment(os.path.join(driver.dir, 'env'))
            for i in job['env']:
                m = metas[i - 1]
                env.meta['packages'][m['name']] = dict(m)
        repos = []
        for kind, content in job['repos']:
            if kind == 'pkg':
                repo = PackageRepository(driver.dir)
                for i in content:
                    m = metas[i - 1]
                    repo.meta.setdefault(m['name'], []).append(dict(m))
            else:
                repo = BaseRepository(driver.dir)
                repo.meta = defaultdict(list)
                for i in content:
                    m = metas[i - 1]
                    repo.meta[m['name']].append(make_formula(m))
            repos.append(repo)
        m = metas[job['target'] - 1]
        if job['kind'] == 'file':
            target = PackageFile('/nowhere', dict(m))
        elif job['kind'] == 'meta':
            target = MetaPackage(dict(m))
        elif job['kind'] == 'class':
            target = make_formula(m)
        else:
            target = make_formula(m)()

        said = []

        def solve():
            try:
                solver = dependencies.Solver.from_obj(target, env, repos)
                return solver.solve(target,
                                    ignore_installed_packages=job['hide'])
            except IpkgException as exc:
                said.append('loop' in (type(exc).__name__ + str(exc) +
                                       str(getattr(exc, 'message', '')))
                            .lower())
                raise
        st, value = attempt(solve)
        result = []
        if st == 'ok':
            result = [rank.get((o.name, o.version, str(o.revision)), 0)
                      for o in value]
        driver.emit(ev='solve', st=st, r=result, loop=any(said),
                    hide=job['hide'], problem=job['problem'], job=job,
                    why='' if st == 'ok' else str(value)[:300])


start(run)
