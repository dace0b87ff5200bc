"""E12: the directories of environments."""
from lib import catalog as cat

CFG = ('INIT Init\nNEXT Next\nVIEW View\nPROPERTY Right\n'
       'INVARIANT Completed\nACTION_CONSTRAINT Printed\nCHECK_DEADLOCK FALSE\n')
PREFIXES = ['w/env'] * 4 + ['w/a b', 'w/x.y+z', 'w/%s', 'w/a/env', 'w/tmp',
                            'w/env/tmp']
NAMES = [None, None, '', 'x', 'ipkg-build-', 'a b', 'tmp', '.', '-', '%s']
PLACES = ['bin', 'lib', 'tmp', 'share', 'share/man', 'lib/pkgconfig', 'sbin',
          'include', 'etc', 'tmp/a', 'tmp/a/b', 'tmp/.hidden', 'tmp/c d',
          'bin/tool', 'lib/pkgconfig/x.pc', 'tmp2', 'tmp/tmp', 'tmpfile',
          'share/man/man1', '']

OWN = PLACES[:8]


def history(rng):
    pre = rng.choice(PREFIXES)
    ops = []
    if '/a/' in pre and rng.random() < .6:
        ops.append(dict(op='user', p='w/a', x=rng.choice(['d', 'd', 'd', 'f'])))
    ops.append(dict(op='names'))
    if rng.random() < .6:
        ops.append(dict(op='create', tol=rng.random() < .3,
                        crash=rng.random() < .2))
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        path = (pre + '/' + rng.choice(PLACES)).rstrip('/')
        if r < .2:
            ops.append(dict(op='create', tol=rng.random() < .6))
        elif r < .35:
            ops.append(dict(op='temp', prefix=rng.choice(NAMES),
                            keyword=rng.random() < .5))
        elif r < .47:
            ops.append(dict(op='clean'))
        elif r < .57:
            ops.append(dict(op='gone', p=path))
        elif r < .62:
            ops.append(dict(op='reopen'))
        elif path == pre or path[len(pre) + 1:] in OWN:
            # what is made in a link is made elsewhere: not told apart here
            ops.append(dict(op='user', p=path, x=rng.choice('df')))
        else:
            ops.append(dict(op='user', p=path, mode=rng.choice(
                [None, 0o600, 0o444, 0o755]), x=rng.choice(
                    ['d', 'd', 'f', 'f', 'f:two', 'l:nowhere', 'l:../bin',
                     'l:../../env', 'l:/nowhere', 'l:.'])))
        if ops[-1]['op'] in ('create', 'clean') and rng.random() < .15:
            ops[-1]['crash'] = True
    return dict(prefix=pre, ops=ops, relative=rng.random() < .2)


def replayed(ctx, rng):
    result = ctx.check_model('MC_Layout', CFG, workers=1)
    transitions = ctx.emitted(result)
    ctx.notes['model_transitions'] = len(transitions)
    tours = cat.tours(transitions, length=60, start={'w': 'd'})
    rng.shuffle(tours)
    todo = tours[:ctx.pick(60, 2000)]
    ctx.notes['model_transitions_replayed'] = sum(len(t) for t in todo)
    return [dict(prefix='w/env', relative=False, ops=[
        dict(o, crash=o['op'] in ('create', 'clean') and rng.random() < .04)
        for o in tour]) for tour in todo]


def run(ctx):
    rng = ctx.rng('layout')
    scenarios = replayed(ctx, rng)
    for _ in range(ctx.pick(250, 3000)):
        scenarios.append(history(rng))
    ctx.judge('d_layout', 'TraceLayout', scenarios, shards=6)
