"""P01: lookups in repositories."""
import itertools

from lib import vers
from lib.req import ANY, CURRENT, plat_text, render, req, sel

UNIVERSE = [[0], [0, 1], [1], [1, 0], [1, 0, 1], [1, 2], [1, 10], [2],
            [2, vers.RC, 1],
            [3], [1, 2, vers.PATCH, 1], [9], [10], [1, 9]]
PLATS = [ANY, ANY, ANY, CURRENT, ['osx', '10.8', 'x86_64'],
         ['any', 'any', 'x86_64'], ['debian', 'any', 'any']]


def scenario(rng):
    names = rng.sample(['a', 'b', 'foo-bar', 'x_y', 'zed'], 3)
    pk = []
    for n in names:
        seen = set()
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            v, r = rng.choice(UNIVERSE), rng.choice([0, 1, 2, 9, 10, 11])
            p = rng.choice(PLATS)
            if (str(v), r, str(p)) in seen:
                continue
            seen.add((str(v), r, str(p)))
            pk.append(dict(n=n, v=v, r=r, p=p))
    rng.shuffle(pk)
    jobs = []
    for _ in range(rng.randint(3, 8)):
        r = req(rng.choice(names + ['nosuch', 'A']),
                rng.choice(PLATS + [CURRENT] * 3),
                s=[sel(rng.choice(['==', '>=', '<=', '!=', '>', '<']),
                       rng.choice(UNIVERSE))
                   for _ in range(rng.choice([0, 0, 1, 1, 2]))])
        jobs.append(dict(req=r, text=render(r, rng), obj=rng.random() < .5,
                         what=rng.choice(['find', 'find', 'first'])))
    jobs.append(dict(what='iter', req=req('a'), text='a', obj=False))
    rng.shuffle(jobs)
    metas = [dict(name=p['n'], version=vers.text(p['v']),
                  revision=str(p['r']), platform=plat_text(p['p']),
                  dependencies=[], files=[], envvars=None, build_prefix='/x')
             for p in pk]
    kind = rng.choice(['package', 'package', 'local', 'formula', 'memory'])
    return dict(pk=pk, metas=metas, jobs=jobs, kind=kind)


def run(ctx):
    rng = ctx.rng('find')
    scenarios = [ctx.replay] if ctx.replay else []
    while len(scenarios) < ctx.pick(300, 4000) and not ctx.replay:
        scenarios.append(scenario(rng))
    # exhaustively: every order of a few packages, every simple requirement
    small = [[1], [1, 10], [2, vers.RC, 1]]
    for order in itertools.permutations([(v, r) for v in small[:2]
                                         for r in (9, 10)][:4]) \
            if not ctx.replay else ():
        pk = [dict(n='a', v=v, r=r, p=ANY) for v, r in order]
        jobs = [dict(what='iter', req=req('a'), text='a', obj=False)]
        for o in ('==', '!=', '<', '<=', '>', '>='):
            for v in small:
                r = req('a', s=[sel(o, v)])
                for what in ('find', 'first'):
                    jobs.append(dict(req=r, text=render(r), obj=False,
                                     what=what))
        scenarios.append(dict(
            pk=pk, jobs=jobs, kind='package', metas=[dict(
                name='a', version=vers.text(p['v']), revision=str(p['r']),
                platform='any', dependencies=[], files=[], envvars=None,
                build_prefix='/x') for p in pk]))

    results = ctx.jython('d_find', scenarios, shards=ctx.pick(4, 8))
    events, owner = [], []
    for i, evs in enumerate(results):
        for event in evs or []:
            if event['ev'] not in ('hang', 'died'):
                job = scenarios[i]['jobs'][event.pop('j')]
                event.update(pk=scenarios[i]['pk'], req=job['req'])
            owner.append(i)
            events.append(event)
    ctx.traces += sum(1 for r in results if r)
    for i in (0, len(events) // 2, len(events) - 1):
        ctx.sample(events[i])
    clean = [dict((k, v) for k, v in e.items() if k != 'why') for e in events]
    for bad in ctx.validate('TraceFind', clean):
        for clause in bad['clauses']:
            if clause.split('.')[0] in (ctx.prop, 'hang'):
                ctx.violation(clause, scenarios[owner[bad['line'] - 1]],
                              events[bad['line'] - 1])
