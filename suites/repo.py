"""P02, P04: histories of a repository and its index."""
import hashlib
import json
import os

from lib import catalog as cat, vers
from lib.req import ANY, CURRENT, plat_text

UNIVERSE = [[1], [1, 0, 1], [1, 2], [1, 10], [2], [2, vers.RC, 1]]


def content(ctx, p, name):
    m = cat.meta(p)
    data = cat.archive(p, m)
    base = os.path.join(ctx.work, 'contents')
    os.makedirs(base, exist_ok=True)
    path = os.path.join(base, name + '.ipkg')
    with open(path, 'wb') as f:
        f.write(data)
    os.chmod(path, 0o644)
    os.chmod(base, 0o755)
    return dict(meta=m, path=path, ok=p['ok'] is True,
                file=os.path.join(p['n'], cat.filename(p)),
                sum=hashlib.sha256(data).hexdigest())


def bad(p):
    """Not a package at all, or one without metadata."""
    p['ok'] = False
    p['cut'] = 0.05
    return p


def model(ctx):
    rng = ctx.rng('repo-model')
    result = ctx.check_model(
        'MC_Repo', 'INIT Init\nNEXT Next\nVIEW View\nPROPERTY Right\n'
        'INVARIANT Kept\nINVARIANT Once\nACTION_CONSTRAINT Printed\n'
        'CHECK_DEADLOCK FALSE\nCONSTANTS Emit = TRUE\nUsed = %s\n' %
        ctx.pick('{1, 2, 4, 5}', '{1, 2, 3, 4, 5}'), workers=1)
    transitions = ctx.emitted(result)
    ctx.notes['model_transitions'] = len(transitions)
    pk = [cat.package(rng, 'a', [1], 1), cat.package(rng, 'a', [1], 1),
          cat.package(rng, 'a', [1, 10], 2), cat.package(rng, 'b', [2], 1),
          bad(cat.package(rng, 'b', [3], 1))]
    contents = [content(ctx, p, 'model-%d' % i) for i, p in enumerate(pk)]
    histories = cat.tours(transitions, length=40)
    rng.shuffle(histories)
    taken = 0
    scenarios = []
    for history in histories[:ctx.pick(40, 1000)]:
        ops = []
        for o in history:
            taken += 1
            ops.append(dict(ev=o['op'], i=o['i'],
                            how=rng.choice(['path', 'obj', 'meta'])))
            if o['op'] in ('update', 'save', 'add') and rng.random() < .06:
                ops[-1]['crash'] = True
            if ops[-1]['how'] == 'meta' and not contents[o['i'] - 1]['ok']:
                ops[-1]['how'] = 'obj'
        scenarios.append(dict(contents=contents, initial=[], ops=ops))
    ctx.notes['model_transitions_replayed'] = taken
    return scenarios


def random_histories(ctx, n, length, crash):
    rng = ctx.rng('repo-random')
    scenarios = []
    for k in range(n):
        names = rng.sample(['a', 'b', 'foo-bar', 'x_y', 'Lib++'[:3]], 3)
        contents = []
        for j in range(rng.randint(2, 7)):
            name = rng.choice(names)
            p = cat.package(
                rng, name, rng.choice(UNIVERSE), rng.choice([1, 2, 10]),
                plat=rng.choice([ANY, ANY, CURRENT[:1] + ['7'] + CURRENT[2:],
                                 ['osx', '10.8', 'x86_64']]))
            if rng.random() < .12:
                bad(p)
            contents.append(content(ctx, p, 'random-%d-%d' % (k, j)))
        ok = {}
        ops = []
        initial = [i for i in range(1, len(contents) + 1)
                   if rng.random() < .4]
        disk = {}
        for i in initial:
            disk[contents[i - 1]['file']] = i
        for _ in range(length):
            what = rng.random()
            i = rng.randint(1, len(contents))
            here = sorted(disk.values())
            if what < .25:
                ops.append(dict(ev='put', i=i))
                disk[contents[i - 1]['file']] = i
            elif what < .35 and here:
                i = rng.choice(here)
                ops.append(dict(ev='drop', i=i))
                disk.pop(contents[i - 1]['file'])
            elif what < .5 and here:
                i = rng.choice(here)
                ops.append(dict(ev='add', i=i, how=rng.choice(
                    ['path', 'obj', 'meta'] if contents[i - 1]['ok']
                    else ['path', 'obj'])))
            elif what < .53:
                ops.append(dict(ev='refuse', i=0, how=rng.choice(
                    ['gone', 'none', 'number', 'spec', 'list', 'empty',
                     'dir', 'meta'])))
            elif what < .6:
                ops.append(dict(ev='save', i=0))
            elif what < .75:
                ops.append(dict(ev='update', i=0))
            elif what < .87:
                built = '-built' if rng.random() < .7 else ''
                ops.append(dict(ev='build', i=0, formula=dict(
                    name=rng.choice(names) + built,
                    version=vers.text(rng.choice(UNIVERSE)),
                    revision=rng.choice([1, 2, 10]), platform='any',
                    data='%d' % rng.randint(0, 99),
                    fails=rng.choice(['', '', '', 'ipkg', 'command',
                                      'sources']))))
            elif what < .93:
                ops.append(dict(ev='reopen', i=0))
            else:
                ops.append(dict(ev='clutter', i=0))
            if ops[-1]['ev'] in ('save', 'update', 'add', 'build') and \
                    rng.random() < crash:
                ops[-1]['crash'] = True
            # a file built replaces another of the same name
            if ops[-1]['ev'] == 'build' and not ops[-1]['formula']['fails']:
                f = ops[-1]['formula']
                disk.pop('%(name)s/%(name)s-%(version)s-%(revision)s-any.ipkg'
                         % f, None)
        ops.append(dict(ev='found'))
        if rng.random() < .5:
            ops += [dict(ev='update', i=0), dict(ev='found')]
        scenarios.append(dict(contents=contents, initial=initial, ops=ops))
    return scenarios


def run(ctx):
    scenarios = model(ctx)
    scenarios += random_histories(ctx, ctx.pick(60, 600), ctx.pick(14, 30),
                                  .7 if ctx.prop == 'P04' else .04)

    def strip(event):
        event = dict(event)
        for k in ('why', 'at'):
            event.pop(k, None)
        return event
    ctx.judge('d_repo', 'TraceRepo', scenarios, strip=strip,
              shards=ctx.pick(6, 8))
