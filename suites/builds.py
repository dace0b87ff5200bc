"""P03: building all the formulas of a repository."""
import json
import os

from lib import catalog as cat, vers
from lib.req import ANY, CURRENT, plat_text, render, req, sel

UNIVERSE = [[1], [1, 2], [1, 10], [2], [2, vers.RC, 1]]


def problem(rng, size=None):
    names = ['a', 'b', 'c', 'd', 'e', 'f', 'g'][:size or rng.randint(2, 7)]
    rng.shuffle(names)
    shared = {}
    for n in names + ['ext', 'nosuch']:
        shared[n] = req(n, rng.choice([ANY, ANY, CURRENT]),
                        s=[] if rng.random() < .5 else
                        [sel(rng.choice(['>=', '<=', '!=', '>']),
                             rng.choice(UNIVERSE[1:3]))])
    loops = rng.random() < .35
    trouble = rng.choice([0, 0, .15, .3])
    f, repo, env = [], [], []
    for k, n in enumerate(names):
        others = [m for m in (names if loops else names[:k]) if m != n]
        # packages must be installable, so no loop may come to be through
        # another version of a package
        count = 1 if loops else rng.choice([1, 1, 1, 2])
        for v in rng.sample(UNIVERSE, count):
            deps = [shared[m] for m in rng.sample(
                others, min(len(others), rng.choice([0, 1, 1, 2, 3])))]
            if rng.random() < .1:
                deps.append(shared['ext'])
            if rng.random() < trouble / 4:
                deps.append(shared['nosuch'])
            if loops and rng.random() < .06:
                deps.append(shared[n])
            kind = 'ok'
            if rng.random() < trouble:
                kind = rng.choice(['fail', 'fail', 'incomplete', 'malformed'])
            p = rng.choice([ANY, ANY, ANY, ['debian', '7', 'x86_64'],
                            ['any', 'any', 'x86_64'], CURRENT[:1] +
                            ['any', 'x86_64']])
            f.append(dict(n=n, v=v, r=rng.choice([1, 2, 10]), p=p, deps=deps,
                          kind=kind))
            if not loops and rng.random() < .15:
                repo.append(dict(f[-1], deps=[]))
                repo[-1].pop('kind')
        if not loops and rng.random() < .12:
            repo.append(dict(n=n, v=rng.choice(UNIVERSE), r=3, p=ANY,
                             deps=[]))
        if rng.random() < .12:
            env.append(dict(n=n, v=rng.choice(UNIVERSE), r=3, p=ANY, deps=[]))
    if rng.random() < .5:
        repo.append(dict(n='ext', v=rng.choice(UNIVERSE), r=1, p=ANY,
                         deps=[]))
    seen, distinct = set(), []
    for p in repo:
        key = (p['n'], str(p['v']), p['r'])
        if key not in seen:
            seen.add(key)
            distinct.append(p)
    repo = distinct
    hasenv = rng.random() < .4
    rng.shuffle(f)
    return dict(f=f, repo=repo, env=env if hasenv else [], hasenv=hasenv)


def scenario(ctx, rng, c, k):
    base = os.path.join(ctx.work, 'builds')
    os.makedirs(base, exist_ok=True)
    os.chmod(base, 0o755)

    def packages(some, tag):
        result = []
        for i, p in enumerate(some):
            q = cat.package(rng, p['n'], p['v'], p['r'], plat=p['p'],
                            files=[dict(path='share/%s-%s' % (p['n'], tag),
                                        kind='f', data='x', mode=0o644,
                                        target='')], variables=[])
            m = cat.meta(q)
            path = os.path.join(base, '%d-%s-%d.ipkg' % (k, tag, i))
            with open(path, 'wb') as f:
                f.write(cat.archive(q, m))
            os.chmod(path, 0o644)
            result.append(dict(path=path, file=cat.filename(q), name=p['n']))
        return result
    formulas = [dict(name=f['n'], version=vers.text(f['v']), revision=f['r'],
                     platform=plat_text(f['p']), kind=f['kind'],
                     dependencies=[render(d) for d in f['deps']])
                for f in c['f']]
    for f in formulas:
        if f['kind'] == 'malformed':
            f['dependencies'].insert(
                rng.randint(0, len(f['dependencies'])),
                rng.choice(['a b', '>=1', 'a=>1', '', ':a', 'a:b:c', 'a>=',
                            'a>=1 b']))
    return dict(c=c, formulas=formulas, repo=packages(c['repo'], 'r'),
                env=packages(c['env'], 'e'),
                how=rng.choice(['list', 'list', 'memory', 'files']),
                why=rng.choice(['ipkg', 'command', 'sources']))


def run(ctx):
    rng = ctx.rng('builds')
    small = [problem(rng, rng.randint(2, 4)) for _ in
             range(ctx.pick(150, 1500))]
    path = ctx.path('problems', '.ndjson')
    with open(path, 'w') as f:
        for c in small:
            f.write(json.dumps(c) + '\n')
    ctx.check_model('MC_Builds', 'SPECIFICATION Spec\nINVARIANT Right\n'
                    'PROPERTY Ends\nCHECK_DEADLOCK FALSE\n',
                    {'PROBLEMS': path})
    scenarios = []
    for k in range(ctx.pick(130, 2000)):
        c = problem(rng)
        for _ in range(2):
            c = dict(c, f=rng.sample(c['f'], len(c['f'])))
            scenarios.append(scenario(ctx, rng, c, k * 2 + _))
    n = len(scenarios)
    for k, c in enumerate(small[:ctx.pick(60, 1500)]):
        scenarios.append(scenario(ctx, rng, c, n + k))
    order = iter(ctx.only(scenarios))

    def strip(event):
        if event['ev'] == 'builds':
            event = dict(event, c=next(order)['c'])
        else:
            next(order)
        event.pop('why', None)
        return event
    ctx.judge('d_builds', 'TraceBuilds', scenarios, strip=strip,
              shards=ctx.pick(6, 8))
