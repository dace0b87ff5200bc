"""E01-E05, E07, E11: histories of installations and removals."""
import json
import os
import shutil

from lib import catalog as cat, core, vers
from lib.req import ANY, CURRENT, render, req, sel


def write_catalog(ctx, c, name):
    base = os.path.join(ctx.work, 'cat-%s' % name)
    if os.path.exists(base):
        shutil.rmtree(base)
    repo = cat.write(c, base)
    return repo


def scenario(ctx, c, name, ops, **more):
    """One history, over a catalog already written."""
    varnames = sorted(set(x['name'] for p in c['pkgs'] for x in p['vars']))
    return dict(catalog=name, varnames=varnames, repodir=c['repodir'],
                pkgs=[dict(meta=p['meta'], path=p['path'])
                      for p in c['pkgs']], ops=ops,
                links=c.get('links', {}), **more)


VALUES = ['text', '', 0, False, [], {}, u'\u00e9t\u00e9', 42, -1, 1.5, True, None, ['a', 1],
          {'k': ['v']}, ' x\ny']


def random_ops(rng, c, n):
    ops = []
    names = sorted(set(p['n'] for p in c['pkgs']))
    paths = [f['path'] for p in c['pkgs'] for f in p['files']]
    user = ['share/mine-%d' % i for i in range(2)] + ['bin/mine', 'etc/x/y']
    if paths:
        user += [os.path.join(os.path.dirname(rng.choice(paths)), 'mine')
                 for _ in range(3)]
    for _ in range(n):
        what = rng.random()
        i = rng.randint(1, len(c['pkgs']))
        p = c['pkgs'][i - 1]
        if what < .3:
            ops.append(dict(ev='install', i=i, repo=rng.random() < .85,
                            how=rng.choice(['path', 'path', 'obj', 'meta',
                                            'unicode']),
                            short=rng.random() < .5))
        elif what < .55:
            r = req(rng.choice(names + ['nosuch'] if rng.random() < .2
                               else names),
                    rng.choice([CURRENT, CURRENT, ANY]),
                    s=[] if rng.random() < .5 else
                    [sel(rng.choice(['==', '>=', '<=', '<', '>', '!=']),
                         rng.choice(c['pkgs'])['v'])])
            ops.append(dict(ev='install', how='text', req=r, i=0,
                            text=render(r, None), repo=rng.random() < .93))
        elif what < .6:
            bad = rng.choice(['none', 'int', 'list', 'missing', 'norepo',
                              'textfile', 'directory', 'nosuch'])
            ops.append(dict(ev='install', how='bad', what=bad, i=0,
                            repo=bad != 'norepo' and rng.random() < .5))
        elif what < .78:
            ops.append(dict(ev='uninstall', n=rng.choice(
                names + ['nosuch'] if rng.random() < .3 else names)))
        elif what < .84:
            ops.append(dict(ev='config', k=rng.choice(['repo', 'x', u'\u00e9',
                                                       'packages']),
                            v=json.dumps(rng.choice(VALUES))))
        elif what < .92:
            ops.append(dict(ev='reopen'))
        elif what < .97 or not paths:
            ops.append(dict(ev='user', path=rng.choice(user)))
        else:
            # the user removes a file of a package
            ops.append(dict(ev='user', path=rng.choice(paths), create=False))
    return ops


PREFIXES = ['env', 'a/b/../env-2', 'with space', 'x.y+z', u'\u00e9nv', '%s']


def random_scenarios(ctx, n, length, salt='env', **kw):
    rng = ctx.rng(salt)
    result = []
    for k in range(n):
        c = cat.random_catalog(rng, **kw)
        name = '%s-%d' % (salt, k)
        c['repodir'] = write_catalog(ctx, c, name)
        c['name'] = name
        for h in range(2):
            ops = random_ops(rng, c, length)
            result.append((c, scenario(
                ctx, c, name, ops, relative=rng.random() < .2,
                prefix=rng.choice(PREFIXES[:1] * 5 + ['with space', 'x.y+z',
                                                      'p%sq']))))
    return result


def chains(ctx, n):
    """Installing where the wanted packages are already there, in part."""
    rng = ctx.rng('chains')
    result = []
    for k in range(n):
        c = cat.random_catalog(rng, consistent=True, deep=True)
        for p in c['pkgs']:
            if rng.random() < .5:
                p['ok'] = True
        name = 'chain-%d' % k
        c['repodir'] = write_catalog(ctx, c, name)
        for h in range(2):
            ops = []
            for _ in range(5):
                i = rng.randint(1, len(c['pkgs']))
                ops.append(dict(ev='install', i=i, how='path', repo=True))
                if rng.random() < .4:
                    ops.append(dict(ev='reopen'))
                if rng.random() < .4:
                    ops.append(dict(ev='uninstall', n=rng.choice(
                        c['pkgs'])['n']))
            result.append((c, scenario(ctx, c, name, ops)))
    return result


def model_scenarios(ctx):
    """Every transition of the exhaustive model, as histories."""
    rng = ctx.rng('model')
    cats = cat.small_catalogs(rng)
    path = ctx.path('catalogs', '.ndjson')
    with open(path, 'w') as f:
        for c in cats:
            f.write(json.dumps(dict(cat.tla(c), user=c['user'])) + '\n')
    cfg = ('INIT Init\nNEXT Next\nVIEW View\nPROPERTY Right\n'
           'PROPERTY RoundTrip\nINVARIANT Wf\nACTION_CONSTRAINT Printed\n'
           'CHECK_DEADLOCK FALSE\nCONSTANT Emit = TRUE\n')
    result = ctx.check_model('MC_Env', cfg, {'CATALOGS': path}, workers=1)
    if '"BAD"' in result['out']:
        at = result['out'].index('"BAD"')
        raise core.MachineryError('model: ' + result['out'][at:at + 2000])
    transitions = ctx.emitted(result)
    ctx.notes['model_transitions'] = len(transitions)
    scenarios, taken = [], 0
    for k, c in enumerate(cats, 1):
        name = 'model-%d' % k
        c['repodir'] = write_catalog(ctx, c, name)
        mine = [t for t in transitions if t['k'] == k]
        histories = cat.tours(mine)
        if not ctx.thorough:
            rng.shuffle(histories)
            histories = histories[:16]
        for history in histories:
            ops = []
            for o in history:
                taken += 1
                if o['op'] == 'install':
                    ops.append(dict(ev='install', i=o['i'], repo=o['repo'],
                                    how=rng.choice(['path', 'obj', 'meta'])))
                elif o['op'] == 'uninstall':
                    ops.append(dict(ev='uninstall', n=o['n']))
                else:
                    ops.append(dict(ev='user', path=o['x']))
            scenarios.append((c, scenario(ctx, c, name, ops)))
    ctx.notes['model_transitions_replayed'] = taken
    return scenarios


def run(ctx):
    if ctx.replay:
        return replay(ctx)
    pairs = model_scenarios(ctx)
    pairs += random_scenarios(ctx, ctx.pick(40, 300), ctx.pick(16, 30))
    pairs += chains(ctx, ctx.pick(24, 200))
    judge(ctx, pairs)


def replay(ctx):
    # catalogs are generated again from the seed
    pairs = model_scenarios(ctx)
    pairs += random_scenarios(ctx, ctx.pick(40, 300), ctx.pick(16, 30))
    pairs += chains(ctx, ctx.pick(24, 200))
    wanted = json.dumps(ctx.replay['ops'], sort_keys=True)
    judge(ctx, [(c, s) for c, s in pairs if s['catalog'] ==
                ctx.replay['catalog'] and
                json.dumps(s['ops'], sort_keys=True) == wanted])


def judge(ctx, pairs):
    tlas = {}
    for c, s in pairs:
        if s['catalog'] not in tlas:
            tlas[s['catalog']] = cat.tla(c)
    scenarios = [s for _, s in pairs]
    # the log needs the catalog at the beginning of each history
    order = iter(scenarios)

    def strip(event):
        event = dict(event)
        if event['ev'] == 'init':
            event['cat'] = tlas[next(order)['catalog']]
        for k in ('why', 'text', 'short', 'create', 'what'):
            event.pop(k, None)
        return event
    ctx.judge('d_env', 'TraceEnv', scenarios, strip=strip,
              shards=ctx.pick(6, 8))
