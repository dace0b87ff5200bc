"""V01, V02: order of packages, specifications and versions."""
from lib import vers


def pkg(n, v, r, k, rng):
    return dict(n=n, v=v, r=r, k=k, vt=vers.text(v),
                rt=r if rng.random() < .5 else str(r), kind='pkg')


def spec(n, v=None, r=None):
    t = n
    if v is not None:
        t += '==' + vers.text(v)
        if r is not None:
            t += ':%d' % r
    return dict(kind='spec', n=n, v=v or [], r=r or 0, hasv=v is not None,
                hasr=r is not None, text=t)


BAD_SPECS = ['', ' ', 'a b', 'a=1', 'a==', 'a==1.0:', 'a>1', 'a==1.0:1:2',
             '==1.0', ':1', 'a:1', 'a==1.0:1-2', 'a ==1.0', 'a== 1.0', 'a/b',
             'a==1.0,b', 'a;', 'a==1+1', u'\u00e9']


def scenarios_cmp(ctx):
    rng = ctx.rng('cmp')
    base = vers.distinct(vers.SMALL + [vers.random_version(rng)
                         for _ in range(ctx.pick(10, 60))])
    versions = rng.sample(base, ctx.pick(11, 26))
    for wanted in ([1], [1, 9], [1, 10]):
        if vers.key(wanted) not in [vers.key(v) for v in versions]:
            versions.append(wanted)
    kinds = ['meta', 'file', 'formula']
    xs = []
    for v in versions:
        for r in rng.sample([1, 2, 9, 10, 11, 100], 2):
            xs.append(pkg('a', v, r, rng.choice(kinds), rng))
    for r in (1, 2, 9, 10, 11, 100):
        for k in kinds:
            xs.append(pkg('a', [1, 9], r, k, rng))
    xs += [pkg('b', v, r, rng.choice(kinds), rng)
           for v in ([1], [1, 10]) for r in (1, 10)]
    ys = list(xs)
    for name in ('a', 'b', 'c-1'):
        ys.append(spec(name))
        for v in versions:
            ys.append(spec(name, v))
            for r in (1, 2, 9, 10, 11):
                ys.append(spec(name, v, r))
    ys += [dict(kind='bad', text=t) for t in BAD_SPECS]
    ys += [dict(kind='other', what=w) for w in ('none', 'int', 'list', 'obj')]
    n = 20
    return [dict(t='cmp', xs=xs, ys=ys[i:i + n])
            for i in range(0, len(ys), n)]


def scenarios_sort(ctx):
    rng = ctx.rng('sort')
    result = []
    universe = vers.SMALL + [vers.random_version(rng)
                             for _ in range(ctx.pick(20, 90))]
    texts, keys = [], []
    for v in universe:
        t = vers.text(v)
        if t not in texts:
            texts.append(t)
            keys.append(v)
    n = len(texts)
    pairs = [(i, j) for i in range(1, n + 1) for j in range(1, n + 1)]
    if not ctx.thorough:
        pairs = rng.sample(pairs, 900)
    lists = [['list', [i, j], None] for i, j in pairs]
    for _ in range(ctx.pick(300, 3000)):
        items = [rng.randint(1, n) for _ in range(rng.randint(1, 7))]
        lists.append([rng.choice(['list', 'tuple', 'iter', 'gen']), items,
                      rng.choice([None, True, False, 'most'])])
    for c in range(0, len(lists), 200):
        # an event carries its keys: keep the universe of each one small
        for entry in lists[c:c + 200]:
            container, items, mode = entry
            used = sorted(set(items))
            result.append(dict(t='sort', kind='v',
                               texts=[texts[i - 1] for i in used],
                               key=[keys[i - 1] for i in used],
                               lists=[[container,
                                       [used.index(i) + 1 for i in items],
                                       mode]]))
    for _ in range(ctx.pick(60, 600)):
        m = rng.randint(1, 6)
        picked = rng.sample(range(n), m)
        ints = [rng.randint(0, 9) for _ in picked]
        lists = []
        for _ in range(4):
            items = [rng.randint(1, m) for _ in range(rng.randint(1, 6))]
            lists.append([rng.choice(['list', 'tuple', 'gen']), items,
                          rng.choice([None, True, False, 'most', 'most'])])
        result.append(dict(t='sort', kind='k', texts=[texts[i] for i in
                                                     picked],
                           key=ints, lists=lists))
    return result


def run(ctx):
    ctx.check_model('MC_Ordering', 'INIT Init\nNEXT Next\n'
                    'INVARIANT TotalOrder\nINVARIANT Trichotomy\n'
                    'CHECK_DEADLOCK FALSE\n')
    if ctx.replay:
        scenarios = [ctx.replay]
    else:
        scenarios = {'V01': scenarios_cmp,
                     'V02': scenarios_sort}[ctx.prop](ctx)
    ctx.judge('d_ordering', 'TraceOrdering', scenarios,
              shards=ctx.pick(2, 6))
