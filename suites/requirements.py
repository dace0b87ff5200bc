"""R01-R04: requirements and platforms."""
from lib import vers
from lib.req import ANY, CURRENT, OPS, plat_text, render, sel


def req(n, p, x, s):
    return dict(n=n, p=p, x=x, s=s)


PLATFORMS = [ANY, CURRENT, ['osx', '10.8', 'x86_64'],
             ['debian', 'any', 'x86_64'], ['any', 'any', 'x86_64'],
             ['debian', 'trixie/sid', 'arm'], ['osx', 'any', 'any'],
             ['any', '10.8', 'any'], ['debian', 'any', 'any']]
BASE = [[0, 9], [1], [1, 0, 1], [1, 9], [1, 10], [2], [2, vers.ALPHA, 1],
        [2, vers.RC, 1], [3], [1, 0, vers.DEV, 1], [1, 0, vers.PATCH, 1]]


def packages(rng, versions, platforms=(ANY,), names=('a',)):
    result = []
    for v in versions:
        for p in platforms:
            for n in names:
                if p == ANY:
                    k = rng.choice(['dict', 'meta', 'formula', 'nodict',
                                    'bare'])
                elif p == CURRENT:
                    k = rng.choice(['dict', 'meta', 'formula', 'default'])
                else:
                    k = rng.choice(['dict', 'meta', 'formula'])
                # a formula without a platform is for the current one
                result.append(dict(n=n, p=p, v=v, vt=vers.text(v), k=k,
                                   pt=plat_text(p)))
    return result


def random_sels(rng, most=3):
    return [sel(rng.choice(OPS), rng.choice(BASE))
            for _ in range(rng.randint(0, most))]


def random_req(rng, names=('a',), most=3):
    return req(rng.choice(names), rng.choice(PLATFORMS) if rng.random() < .4
               else rng.choice([ANY, CURRENT]),
               [rng.choice(['x', 'y', 'z-1', 'W'])
                for _ in range(rng.choice([0, 0, 1, 2, 3]))],
               random_sels(rng, most))


def exclusive_hint(r):
    """Skip what cannot be built, for 'eq' only; TLC judges elsewhere."""
    key = vers.key
    ok = []
    for v in BASE + [[0], [1, 5], [2, 5], [4], [1, 9, 5], [1, 10, 5]] + \
            [b + [0, 0, 1] for b in BASE] + [b + [vers.PATCH, 9]
                                              for b in BASE]:
        good = True
        for s in r['s']:
            a, b = key(v), key(s['v'])
            good &= {'==': a == b, '!=': True, '<': a < b, '<=': a <= b,
                     '>': a > b, '>=': a >= b}[s['o']]
        ok.append(good)
    return not any(ok)


def chunks(items, n, **more):
    return [dict(more, items=items[i:i + n]) for i in range(0, len(items), n)]


def parse_item(r, rng, current):
    s = list(r['s'])
    if s and rng.random() < .2:
        s.append(rng.choice(s))
    rng.shuffle(s)
    r = dict(r, s=s)
    return dict(ev='parse', r=r, text=render(r, rng, current))


def r01(ctx, current):
    rng = ctx.rng('r01')
    probes = packages(rng, BASE + [[0], [1, 5], [4], [1, 10, 1]], [ANY])
    pk = rng.sample(probes, ctx.pick(9, 15)) + \
        packages(rng, [[1], [2]], [ANY, current, ['osx', '10.8', 'x86_64']],
                 ('a', 'b'))
    # every sequence of up to two selectors over three versions
    few = [[1], [1, 9], [1, 10]]
    sels = [sel(o, v) for o in OPS for v in few]
    all_sels = [[]] + [[a] for a in sels] + [[a, b] for a in sels
                                             for b in sels]
    if ctx.thorough:
        all_sels += [[a, b, c] for a in sels for b in sels for c in sels]
    items = [parse_item(req('a', ANY, [], s), rng, current)
             for s in all_sels]
    for _ in range(ctx.pick(250, 3000)):
        items.append(parse_item(random_req(rng, most=5), rng, current))
    return chunks(items, 60, pk=pk)


def r02(ctx, current):
    rng = ctx.rng('r02')
    pk = packages(rng, BASE + [[0], [4]], [ANY]) + \
        packages(rng, [[1], [1, 9]], PLATFORMS[1:], ('a',)) + \
        packages(rng, [[1]], [ANY], ('b',))
    items = []
    few = [[1], [1, 9], [2]]
    sels = [sel(o, v) for o in OPS for v in few]
    pairs = [[a, b] for a in sels for b in sels]
    if not ctx.thorough:
        pairs = rng.sample(pairs, 160)
    cases = [[req('a', ANY, [], [a]), req('a', ANY, [], [b])]
             for a, b in pairs]
    for _ in range(ctx.pick(350, 5000)):
        # mergeable ones often enough
        n = rng.choice([2, 2, 3, 3, 4])
        if rng.random() < .5:
            loose = [['>=', '>', '!='], ['<', '<=', '!=']]
            case = []
            for i in range(n):
                s = []
                for _ in range(rng.randint(0, 2)):
                    side = rng.choice(loose)
                    low = side is loose[0]
                    s.append(sel(rng.choice(side),
                                 rng.choice([[0, 9], [1], [1, 0, 1]] if low
                                            else [[2], [1, 10], [3]])))
                p = rng.choice([ANY, current, ['debian', 'any', 'any'],
                                ['any', 'any', 'x86_64']])
                case.append(req('a', p, [rng.choice('xyzW') for _ in
                                         range(rng.randint(0, 2))], s))
        else:
            case = [random_req(rng, ('a', 'a', 'a', 'a', 'b'), 2)
                    for _ in range(n)]
        cases.append(case)
    for case in cases:
        if any(exclusive_hint(r) for r in case):
            continue
        trees = {2: [[0, 1], [1, 0]],
                 3: [[[0, 1], 2], [0, [1, 2]], [[2, 0], 1], [1, [2, 0]],
                     [[1, 2], 0]],
                 4: [[[0, 1], [2, 3]], [[[0, 1], 2], 3], [0, [1, [2, 3]]],
                     [[3, 1], [0, 2]]]}[len(case)]
        for tree in (trees if ctx.thorough else rng.sample(trees, 2)):
            items.append(dict(ev='merge', rs=case, tree=tree,
                              texts=[render(r, rng, current) for r in case],
                              as_text=rng.random() < .4))
    return chunks(items, 60, pk=pk)


def r03(ctx, current):
    rng = ctx.rng('r03')
    items = []
    comps = [['any', 'debian', 'osx'], ['any', 'trixie/sid', '10.8', '6'],
             ['any', 'x86_64', 'arm']]
    every = [[a, b, c] for a in comps[0] for b in comps[1] for c in comps[2]]
    # one which starts, ends or contains another is not the same
    near = [['deb', 'debian', 'ebian', 'debi', 'many'],
            ['10', '10.8', '10.8.5', '0.8', '8', '10.80', 'company'],
            ['x86', 'x86_64', '86_64', '64', 'arm', 'armv7', 'an']]
    close = [rng.choice([['any', 'any', 'any'], ['debian', '10.8', 'x86_64']])
             for _ in range(ctx.pick(60, 600))]
    pairs = [(a, b) for a in every for b in every]
    if not ctx.thorough:
        pairs = rng.sample(pairs, 440)
    for a in close:
        b = list(a)
        a = list(a)
        for c in rng.sample([0, 1, 2], rng.choice([1, 1, 2])):
            a[c], b[c] = rng.sample(near[c], 2)
        pairs.append((a, b))
    for a, b in pairs:
        items.append(dict(ev='plateq', a=a, b=b, tb=plat_text(b, rng),
                          as_text=rng.random() < .6))
    for a in every:
        items.append(dict(ev='plat', a=a, valid=True,
                          text=plat_text(a, rng)))
    for text in ['', ' ', 'anyx', 'any-any', 'a', 'debian', 'a-b', 'a-b-c-d',
                 '-', '---', 'debian 6', u'\u00e9', 'any any any', '*',
                 'debian_6_x86', 'none', 'any,any,any', 'any.any.any']:
        items.append(dict(ev='plat', a=ANY, valid=False, text=text))
    for system in ('Linux', 'Darwin', 'Windows', 'FreeBSD', 'Java', '',
                   'linux', 'SunOS'):
        for dist, low in (('debian', 'debian'), ('SuSE', 'suse'),
                          ('Red Hat', 'red hat'), ('', '')):
            for release in ('6.0.4', '10.8.5', 'trixie/sid', '12.04', ''):
                items.append(dict(
                    ev='current', system=system, dist=dist, low=low,
                    release=release, machine=rng.choice(
                        ['x86_64', 'i686', 'armv7l', 'x86_64'])))
    scenarios = chunks(items, 60, pk=[])
    items = []
    pk = packages(rng, [[1], [2]], every[::2] + [ANY, current])
    for _ in range(ctx.pick(120, 600)):
        r = req('a', rng.choice(every + [current] * 5), [],
                rng.choice([[], [sel('>=', [1])], [sel('==', [2])]]))
        items.append(parse_item(r, rng, current))
    return scenarios + chunks(items, 40, pk=pk)


ALPHABET = list('aA1.0,=!<>[]-_ ')


def mutate(text, rng):
    chars = list(text)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        what = rng.random()
        i = rng.randint(0, len(chars))
        if what < .4:
            chars.insert(i, rng.choice(ALPHABET + [':', '\t', u'\u00e9', '+',
                                                   '/', '\n']))
        elif what < .7 and i < len(chars):
            del chars[i]
        elif i < len(chars):
            chars[i] = rng.choice(ALPHABET)
    return chars


def r04(ctx, current):
    rng = ctx.rng('r04')
    items = []
    numeric = [v for v in BASE if all(t >= 0 for t in v)]
    for _ in range(ctx.pick(700, 8000)):
        r = random_req(rng, ('a', 'b-1', 'X_y'), 3)
        for s in r['s']:
            if rng.random() < .8:
                s['v'] = rng.choice(numeric)
        items.append(dict(ev='text',
                          chars=mutate(render(r, rng, current), rng)))
    for _ in range(ctx.pick(300, 3000)):
        items.append(dict(ev='text', chars=[rng.choice(ALPHABET) for _ in
                                            range(rng.randint(0, 7))]))
    # texts which slow pattern matching down
    for core in ('a==1' + ' ' * 60 + '!', 'a' * 60 + '!', 'a[' + 'x,' * 60,
                 'a' + ' ' * 60 + '[', 'a==' + '1.' * 60 + '/',
                 'a==1,' * 40 + '!'):
        items.append(dict(ev='text', chars=list(core)))
    pk = packages(rng, BASE + [[0], [4]], [ANY])
    eqs = []
    while len(eqs) < ctx.pick(400, 4000):
        a = random_req(rng, ('a',), 3)
        if exclusive_hint(a):
            continue
        b = dict(a, x=list(a['x']), s=list(a['s']))
        rng.shuffle(b['x'])
        rng.shuffle(b['s'])
        what = rng.random()
        if what < .15:
            b['n'] = 'b'
        elif what < .3:
            b['p'] = rng.choice(PLATFORMS)
        elif what < .45:
            b['x'] = b['x'][:-1] or ['q']
        elif what < .6:
            b['s'] = random_sels(rng, 2)
        elif what < .7 and b['s']:
            b['s'].append(b['s'][0])
        elif what < .8 and b['x']:
            b['x'].append(b['x'][0])
        elif what < .9 and b['s']:
            i = rng.randrange(len(b['s']))
            b['s'][i] = sel(b['s'][i]['o'], b['s'][i]['v'] + [0]
                            if b['s'][i]['v'][-1] >= 0 else b['s'][i]['v'])
        if exclusive_hint(b):
            continue
        eqs.append(dict(ev='eq', a=a, b=b, ta=render(a, rng, current),
                        tb=render(b, rng, current),
                        as_text=rng.random() < .4))
    notreqs = [dict(ev='notreq', ta='any:a>=1', other=o)
               for o in ('none', 'int', 'list', '=', '=a b', '=a=1', '=a-b:c',
                         '=:a', '=a:b:c', '=x-y:a', u'=\u00e9', '=a>1,',
                         '=a>2,<1', '=any:')]
    return chunks(items, 80) + chunks(eqs, 60, pk=pk) + \
        [dict(items=notreqs, pk=[])]


def current_platform(ctx):
    """What the code says the platform of this machine is."""
    return CURRENT


def strip(event):
    event = dict(event)
    event['pk'] = [dict(n=p['n'], p=p['p'], v=p['v'])
                   for p in event.get('pk', [])]
    for key in ('text', 'texts', 'tree', 'ta', 'tb', 'as_text'):
        event.pop(key, None)
    return event


def run(ctx):
    ctx.check_model('MC_Requirements', 'INIT Init\nNEXT Next\n' + ''.join(
        'INVARIANT %s\n' % i for i in (
            'ExclusiveIsEmpty', 'MergeMeansBoth', 'NormalFormIsEquivalent',
            'PlatformLattice')) + 'CHECK_DEADLOCK FALSE\n'
        'CONSTANT Depth = %d\n' % ctx.pick(1, 2))
    current = current_platform(ctx)
    if ctx.replay:
        scenarios = [ctx.replay]
    else:
        scenarios = dict(R01=r01, R02=r02, R03=r03,
                         R04=r04)[ctx.prop](ctx, current)
    ctx.judge('d_requirements', 'TraceRequirements', scenarios, strip=strip,
              shards=ctx.pick(3, 7))
