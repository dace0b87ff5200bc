"""E06: dying in the middle of installations and removals."""
import json

from lib import catalog as cat, core
from suites import env


def model(ctx):
    rng = ctx.rng('crashmodel')
    cats = cat.small_catalogs(rng)
    path = ctx.path('catalogs', '.ndjson')
    with open(path, 'w') as f:
        for c in cats:
            for p in c['pkgs']:
                p['files'] = p['files'][:ctx.pick(2, 3)]
            f.write(json.dumps(cat.tla(c)) + '\n')
    ctx.check_model('MC_Crash', 'INIT Init\nNEXT Next\nINVARIANT PointRight\n'
                    'INVARIANT RedoneRight\nPROPERTY StepsRight\n'
                    'CHECK_DEADLOCK FALSE\nCONSTANT Deaths = %d\n' %
                    ctx.pick(1, 2), {'CATALOGS': path}, workers=4)


def scenarios(ctx):
    rng = ctx.rng('crash')
    result = []
    for k in range(ctx.pick(14, 120)):
        c = cat.random_catalog(rng, consistent=True, deep=True)
        for p in c['pkgs']:
            if rng.random() < .7:
                p['ok'] = True
            # scripts to relocate
            linked = [f['target'] for f in p['files'] if f['kind'] == 'h']
            for f in p['files']:
                if f['kind'] == 'f' and f['path'] not in linked and \
                        f['path'].split('/')[0] in ('bin', 'sbin', 'lib'):
                    f['data'] = '#!@B/bin/run -x\nfirst\n' + f['data']
        name = 'crash-%d' % k
        c['repodir'] = env.write_catalog(ctx, c, name)
        ops = []
        for _ in range(ctx.pick(5, 7)):
            crash = 60 if rng.random() < .7 else 0
            what = rng.random()
            if what < .65:
                i = rng.randint(1, len(c['pkgs']))
                ops.append(dict(ev='install', i=i, how=rng.choice(
                    ['path', 'obj', 'meta']), repo=rng.random() < .9,
                    crash=crash))
            elif what < .9:
                ops.append(dict(ev='uninstall', n=rng.choice(c['pkgs'])['n'],
                                crash=crash))
            elif what < .95:
                ops.append(dict(ev='config', k='repo', v='"x"'))
            else:
                ops.append(dict(ev='user', path='bin/mine'))
        # replace and remove what is there
        names = [p['n'] for p in c['pkgs']]
        twice = [n for n in names if names.count(n) > 1]
        if twice:
            n = rng.choice(twice)
            both = [i for i, m in enumerate(names, 1) if m == n]
            for i in rng.sample(both, 2):
                ops.append(dict(ev='install', i=i, how='path', repo=True,
                                crash=60))
            ops.append(dict(ev='uninstall', n=n, crash=60))
        result.append((c, env.scenario(ctx, c, name, ops)))
    return result


def run(ctx):
    model(ctx)
    pairs = scenarios(ctx)
    if ctx.replay:
        wanted = json.dumps(ctx.replay['ops'], sort_keys=True)
        pairs = [(c, s) for c, s in pairs
                 if s['catalog'] == ctx.replay['catalog'] and
                 json.dumps(s['ops'], sort_keys=True) == wanted]
    env.judge(ctx, pairs)
    ctx.assumptions.append(
        'A process dies between two primitives or lines of the code; what '
        'it has written and closed is on disk.')
