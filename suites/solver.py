"""S01-S04: dependency solutions."""
import json

from lib import vers
from lib.req import ANY, CURRENT, plat_text, render, req, sel

UNIVERSE = [[0, 1], [0], [1], [1, 0, 1], [1, 2], [1, 10], [2], [2, vers.RC, 1], [3]]


def problem(rng, uniform, size=None):
    """pkgs, repo, env, target (indexes from 1)."""
    names = ['a', 'b', 'c', 'd', 'e', 'f'][:size or rng.randint(2, 6)]
    rng.shuffle(names)
    versions = sorted(rng.sample(UNIVERSE, 3), key=vers.key)
    loops = rng.random() < .2

    def demand(n):
        p = rng.choice([ANY, ANY, CURRENT, CURRENT, ['any', 'any', 'x86_64']])
        s = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            op = rng.choice(['>=', '<=', '==', '!=', '>', '<'])
            s.append(sel(op, rng.choice(versions)))
        return req(n, p, s=s)
    pkgs, repo, env = [], [], []
    for k, n in enumerate(names):
        others = names if loops else names[k + 1:]
        base = []
        count = rng.choice([0, 1, 1, 2, 2, 3])
        if k == 0:
            count = max(1, count)
        for m in rng.sample(others, min(len(others), count)):
            base.append(demand(m))
            if rng.random() < .12:
                base.append(demand(m))
        if rng.random() < .04:
            base.append(req('nosuch'))
        for v in rng.sample(versions, rng.choice([1, 2, 2, 3])):
            for r in rng.choice([[1], [1], [9, 10], [2, 10]]):
                deps = list(base)
                if not uniform and rng.random() < .5:
                    deps = [demand(m) for m in rng.sample(
                        others, min(len(others), rng.choice([0, 1, 2])))]
                rng.shuffle(deps)
                plat = ANY if rng.random() < .85 else rng.choice(
                    [CURRENT, ['osx', '10.8', 'x86_64'],
                     ['any', 'any', 'x86_64']])
                pkgs.append(dict(n=n, v=v, r=r, p=plat, deps=deps))
                if rng.random() < .93 or k == 0:
                    repo.append(len(pkgs))
    target = rng.choice([i for i, p in enumerate(pkgs, 1)
                         if p['n'] == names[0]])
    if rng.random() < .55:
        for n in names[1:]:
            if rng.random() < .4:
                mine = [i for i, p in enumerate(pkgs, 1) if p['n'] == n]
                env.append(rng.choice(mine))
    return dict(pkgs=pkgs, repo=repo, env=env, target=target)


def metas(c):
    result = []
    for p in c['pkgs']:
        result.append(dict(
            name=p['n'], version=vers.text(p['v']), revision=str(p['r']),
            platform=plat_text(p['p']),
            dependencies=[render(d) for d in p['deps']], files=[],
            envvars=None, build_prefix='/x'))
    return result


def jobs(rng, c, number, n):
    result = []
    for _ in range(n):
        repo = list(c['repo'])
        rng.shuffle(repo)
        kinds = rng.choice([['pkg'], ['pkg'], ['formula'], ['pkg', 'pkg'],
                            ['pkg', 'formula']])
        if len(kinds) == 1:
            repos = [[kinds[0], repo]]
        else:
            half = [[], []]
            for i in repo:
                half[rng.randint(0, 1)].append(i)
            repos = [[k, h] for k, h in zip(kinds, half)]
        env = list(c['env'])
        rng.shuffle(env)
        result.append(dict(
            problem=number, repos=repos, target=c['target'],
            env=env if env or rng.random() < .5 else None,
            kind=rng.choice(['file', 'meta', 'class', 'instance']),
            hide=rng.random() < .7, seed=rng.randint(0, 10 ** 6)))
    return result


def run(ctx):
    rng = ctx.rng('solver')
    problems = [problem(rng, k % 3 != 2) for k in
                range(ctx.pick(330, 4000))]
    small = []
    while len(small) < ctx.pick(60, 500):
        c = problem(rng, len(small) % 3 != 2,
                    size=rng.randint(2, ctx.pick(3, 4)))
        # the model takes the demands in every order
        if sum(len(p['deps']) for p in c['pkgs']) <= ctx.pick(12, 15):
            small.append(c)
    path = ctx.path('problems', '.ndjson')
    with open(path, 'w') as f:
        for c in small:
            f.write(json.dumps(c) + '\n')
    ctx.check_model('MC_Solver', 'INIT Init\nNEXT Next\nINVARIANT Answered\n'
                    'CHECK_DEADLOCK FALSE\n', {'PROBLEMS': path})
    if ctx.replay:
        scenarios = [ctx.replay]
        problems = ctx.replay['problems']
    else:
        problems += small
        # each problem by itself, its jobs differ in their order only
        scenarios = []
        for k, c in enumerate(problems):
            scenarios.append(dict(pkgs=metas(c), problems=[c],
                                  jobs=jobs(rng, c, 0, ctx.pick(5, 12))))
    ctx.assumptions.append(
        'S03 is decided on problems where all versions of a name have the '
        'same requirements; S01, S02 and S04 on all.')
    judge(ctx, scenarios)


def judge(ctx, scenarios):
    results = ctx.jython('d_solver', [dict(pkgs=s['pkgs'], jobs=s['jobs'])
                                      for s in scenarios],
                         shards=ctx.pick(4, 8))
    events, owner = [], []
    answers = {'ok': 0, 'ipkg': 0}
    for i, evs in enumerate(results):
        for event in evs or []:
            job = event.pop('job', None)
            if event['ev'] == 'solve':
                c = scenarios[i]['problems'][0]
                event['c'] = dict(c, env=job['env'] or [])
                answers[event['st']] = answers.get(event['st'], 0) + 1
            owner.append((i, job))
            events.append(event)
    ctx.traces += sum(1 for r in results if r)
    ctx.notes['answers'] = answers
    for i in (0, len(events) // 2, len(events) - 1):
        ctx.sample(events[i])
    for bad in ctx.validate('TraceSolver', events):
        i, job = owner[bad['line'] - 1]
        for clause in bad['clauses']:
            if clause.split('.')[0] in (ctx.prop, 'hang'):
                s = scenarios[i]
                ctx.violation(clause, dict(s, jobs=[job] if job else s['jobs']),
                              dict(events[bad['line'] - 1]))
