"""D01, D02: dictionaries stored in files."""
from lib import catalog as cat, web

CFG = ('INIT Init\nNEXT Next\nVIEW View\nPROPERTY Right\nINVARIANT Kept\n'
       'ACTION_CONSTRAINT Printed\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS Emit = TRUE\nDirect = FALSE\n')
BAD = ['{', '[1]', '"x"', 'null', '3', '{"a": }', '{"a": 1', 'nonsense',
       '{"a": 1} x', '\x00', ' ', "{'a': 1}", '<html>', '[]', 'true',
       '{"a": 1}{"b": 2}', '\n', '""', '0', 'false']
NAMES = ['f', 'f', '.ipkg.meta', 'repository.json', 'a b', 'x%y', 'f.new',
         'F.json']
KEYS = ['a', 'b', 'c', '', 'key', 'a b', u'\xe9', 'new', 'a.b', '%s', '1',
        u'\u4e2d', '"', '\\', '\n', 'packages', '__class__', 'update']


# Keys which JSON does not have
ODD = ['@tuple', '@frozen', '@nested']


def value(rng, depth=0):
    r = rng.random()
    if depth < 3 and r < .15:
        return [value(rng, depth + 1) for _ in range(rng.randint(0, 4))]
    if depth < 3 and r < .35:
        return dict((rng.choice(KEYS), value(rng, depth + 1))
                    for _ in range(rng.randint(0, 4)))
    if r > .95:
        # UTF-8, not decoded
        return {'@bytes': rng.choice([u'\xe9t\xe9', u'\u4e2d', 'ascii'])}
    return rng.choice([
        None, True, False, 0, 1, -1, 2 ** 40, 1.5, -0.25, 1e100, '', 'x', 'y',
        'a b', u'\xe9\u4e2d', '"', '\\', 'l\nm', '\t', '\x01', '%s', 'x' * 3000,
        '1', 'null', [], {}, '\x7f', u'\u2028', 1400000000.123])


def unfit(rng):
    v = {'@unfit': rng.choice(['object', 'set', 'bytes', 'complex'])}
    for _ in range(rng.choice([0, 0, 1, 2])):
        v = rng.choice([[1, v], [v], {'a': 1, 'b': v}, {'z': v, 'a': {}}])
    return v


def written(rng):
    r = rng.random()
    if r < .4:
        return dict(k='good', indent=rng.choice([None, 0, 4]), c=dict(
            (rng.choice(KEYS), value(rng)) for _ in range(rng.randint(0, 4))))
    if r < .8:
        return dict(k='bad', raw=rng.choice(BAD))
    return dict(k=rng.choice(['absent', 'empty']))


def history(rng, remote):
    ops = []
    if rng.random() < .6:
        ops.append(dict(op='write', f=written(rng)))
    if rng.random() < .8:
        ops.append(dict(op='new', o='o'))
    for _ in range(rng.randint(3, 14)):
        o = rng.choice('oop')
        kind = rng.choice(['new', 'new', 'reload', 'reload', 'write', 'set']
                          if remote else
                          ['new', 'set', 'set', 'set', 'del', 'save', 'save',
                           'save', 'reload', 'clear', 'write', 'reload'])
        op = dict(op=kind, o=o)
        if kind in ('set', 'del'):
            op['x'] = rng.choice(KEYS)
            if not remote and rng.random() < .06:
                op['x'] = rng.choice(ODD)
        if kind == 'set':
            op['v'] = unfit(rng) if rng.random() < .12 else value(rng)
        if kind == 'write':
            op = dict(op='write', f=written(rng))
        if kind in ('save', 'clear') and rng.random() < .12:
            op['crash'] = True
        elif kind == 'save' and rng.random() < .35:
            op['fault'] = rng.choice([1, 2, 3, 5, 9, 20, 'directory',
                                      'rename'])
        ops.append(op)
    return ops


def replayed(ctx, rng):
    """The transitions of the model, taken by the code."""
    result = ctx.check_model('MC_Store', CFG, workers=1)
    transitions = ctx.emitted(result)
    ctx.notes['model_transitions'] = len(transitions)
    start = dict(file=dict(k='absent', c={}), objs={})

    def plain(state):
        return dict(file=dict(state['file'], c=state['file']['c'] or {}),
                    objs=dict((o, c or {}) for o, c in
                              (state['objs'] or {}).items()))
    for t in transitions:
        t['s'], t['t'] = plain(t['s']), plain(t['t'])
    tours = cat.tours(transitions, length=50, start=start)
    rng.shuffle(tours)
    histories = []
    for tour in tours[:ctx.pick(60, 2000)]:
        ops = []
        for o in tour:
            op = dict(op=o['op'], o=o.get('o'))
            if o['op'] == 'failed':
                op.update(op='save', fault=rng.choice(
                    [1, 2, 3, 'rename', 'directory']))
            elif o['op'] == 'set':
                v = o['v']
                op.update(x=o['x'], v=v if v < 9 else unfit(rng))
            elif o['op'] == 'del':
                op['x'] = o['x']
            elif o['op'] == 'write':
                f = dict(o['f'])
                f['c'] = f['c'] or {}
                if f['k'] == 'bad':
                    f['raw'] = rng.choice(BAD)
                op = dict(op='write', f=f)
            if o['op'] in ('save', 'clear') and rng.random() < .03:
                op['crash'] = True
            ops.append(op)
        histories.append(ops)
    return histories


def scenarios(ctx):
    rng = ctx.rng('store')
    result = [dict(ops=ops, name=rng.choice(NAMES), remote=False,
                   relative=rng.random() < .2)
              for ops in replayed(ctx, rng)]
    for _ in range(ctx.pick(400, 5000)):
        remote = rng.random() < .12
        result.append(dict(ops=history(rng, remote), remote=remote,
                           name=rng.choice(NAMES) if not remote else 'f.json',
                           relative=rng.random() < .2))
    return result


def run(ctx):
    www, url = web.start(ctx)
    ctx.judge('d_store', 'TraceStore', scenarios(ctx), shards=6,
              params=dict(www=www, url=url))
