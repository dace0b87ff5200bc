"""F01, F02, F03, F05: files, local and remote, and the cache."""
import socket

from lib import catalog as cat, web

CFG = ('INIT Init\nNEXT Next\nVIEW View\nPROPERTY Right\n'
       'INVARIANT Complete\nINVARIANT Whole\nACTION_CONSTRAINT Printed\n'
       'CHECK_DEADLOCK FALSE\nCONSTANTS Urls = %s\nEmit = %s\nDirect = FALSE\n'
       'Procs = %s\n')
URLS = ['f', 'F', 'f?x=1', 'f?x=2', 'a/f', 'a.tar.gz', 'f%20g', 'g', 'ff',
        'dead']
ALGOS = ['sha512', 'sha384', 'sha256', 'sha224', 'sha1', 'md5']
SIZES = [0, 1, 2, 10, 16, 17, 40, 250, 251, 252, 1000, 4096, 8192, 20000]
BIG = [1048575, 1048576, 1048577, 2500000]
GOOD = [{}, {}, {}, {'chunked': 10000}, {'length': 'none'}, {'redirect': 1},
        {'chunked': 300}]
DOWN = [{'status': 404}, {'status': 500}, {'status': 403}, {'status': 503},
        {'drop': 1}, {'fraction': .5}, {'fraction': 0}, {'fraction': 1},
        {'chunked': 200, 'fraction': .7}, {'loop': 1}, {'status': 410},
        {'chunked': 100000, 'fraction': .9}, {'fraction': .99}]
NAMES = ['f', 'f', 'a b', 'd/f', 'x#y', 'x?y', 'a;b', '100%', 'a%20b', 'a=b',
         'x.tar.gz', 'd+/~f', 'http', 'x:y' ]
UNKNOWN = ['ftp://127.0.0.1/x', 'foo:bar', 'ssh://x', 'httpx://127.0.0.1/',
           'file2:///etc/hostname', 'gopher://x/y', '']


def size(ctx, rng):
    return rng.choice(BIG) if rng.random() < .02 else rng.choice(SIZES)


def serve(ctx, rng, u, ok=None):
    ok = rng.random() < .7 if ok is None else ok
    if u == 'dead':
        ok = False
    n = size(ctx, rng)
    how = dict(rng.choice(GOOD if ok else DOWN))
    if 'fraction' in how:
        n = max(n, 10)
    return dict(ev='srv', u=u, ok=ok, how=how, seed=rng.randint(1, 12),
                len=n)


def declared(rng, contents):
    """A checksum: that of one of the contents, or nearly."""
    r = rng.random()
    if r < .15 or not contents:
        return dict(variant='none', seed=0, len=0)
    seed, n = contents[-1] if rng.random() < .85 else rng.choice(contents)
    variant = 'exact' if rng.random() < .6 else rng.choice(
        ['start', 'end', 'short', 'other', 'half', 'empty'])
    if rng.random() < .1:
        n = max(0, n - 1)
    return dict(variant=variant, seed=seed, len=n, algo=rng.choice(ALGOS))


def local(ctx, rng, contents, i):
    r = rng.random()
    if r < .06:
        return dict(kind='unknown', raw=rng.choice(UNKNOWN))
    loc = dict(kind=rng.choice(['path', 'path', 'file']), exists=r > .15,
               name='l%d/' % i + rng.choice(NAMES), seed=rng.randint(1, 12),
               len=size(ctx, rng))
    if not loc['exists']:
        loc['directory'] = rng.random() < .3
    elif rng.random() < .2:
        loc['relative'] = True
    if loc['exists']:
        contents.append((loc['seed'], loc['len']))
    return loc


class Files(object):
    """Positions, so that none before the start is asked for."""

    def __init__(self):
        self.pos = {}

    def ops(self, rng, o, length, crash=0):
        ops = []
        for _ in range(rng.randint(0, 7)):
            kind = rng.choice(['read', 'read', 'read', 'seek', 'seek', 'tell',
                               'verify'])
            op = dict(ev=kind, o=o)
            pos = self.pos.get(o, 0)
            if kind == 'read':
                n = rng.choice([None, None, -1, 0, 1, 3, 16, 100, 5000,
                                length, length + 1])
                op['n'] = n
                left = max(0, length - pos)
                self.pos[o] = pos + (left if n is None or n < 0
                                     else min(n, left))
                if rng.random() < crash:
                    op['crash'] = True
            elif kind == 'seek':
                wh = rng.choice([0, 0, 0, 1, 2])
                base = (0, pos, length)[wh]
                to = rng.choice([0, 0, 1, length // 2, length,
                                 max(0, length - 1), length + 3])
                op.update(off=to - base, wh=wh,
                          explicit=wh > 0 or rng.random() < .5)
                self.pos[o] = to
            ops.append(op)
        return ops


def random_history(ctx, rng, crash=.05):
    """The lengths the operations have in mind need not be the right ones."""
    urls = rng.sample(URLS, rng.randint(1, 3))
    ops, contents = [], []
    files = Files()
    if rng.random() < .8:
        ops.append(dict(ev='cache', how=rng.choice(
            ['yes', 'yes', 'yes', 'readonly', 'missing', 'empty', 'no'])))
    for u in urls:
        if rng.random() < .9:
            ops.append(serve(ctx, rng, u, True if rng.random() < .8
                             else None))
    serving = dict((op['u'], op) for op in ops if op['ev'] == 'srv')
    for i in range(rng.randint(1, 6)):
        o = 'o%d' % rng.randint(0, 2)
        r = rng.random()
        if r < .12:
            ops.append(dict(ev='cache', how=rng.choice(
                ['yes', 'yes', 'readonly', 'no', 'missing'])))
            continue
        if r < .3:
            op = serve(ctx, rng, rng.choice(urls))
            serving[op['u']] = op
            ops.append(op)
            continue
        if r < .72:
            u = rng.choice(urls)
            loc = dict(kind='http', u=u)
            if u in serving:
                contents.append((serving[u]['seed'], serving[u]['len']))
            length = serving[u]['len'] if u in serving else 10
            if rng.random() < .3:
                # then nothing is certain about positions
                length = None
        else:
            loc = local(ctx, rng, contents, len(ops))
            length = loc.get('len', 0)
        ops.append(dict(ev=rng.choice(['open', 'fopen']), o=o, loc=loc,
                        d=declared(rng, contents)))
        files.pos[o] = 0
        if length is None:
            ops.append(dict(ev='read', o=o, n=None,
                            crash=rng.random() < crash * 3))
        else:
            more = files.ops(rng, o, length, crash)
            if loc['kind'] == 'http':
                # what it has in mind may be wrong: only from the start
                more = [m for m in more if m['ev'] != 'seek' or
                        (m['wh'] == 0) or m['off'] >= 0]
            ops += more
    return dict(urls=urls, ops=ops)


def same_calls(ctx, rng):
    """The same calls on the same content, wherever it is."""
    seed, n = rng.randint(1, 12), size(ctx, rng)
    ops = [dict(ev='srv', u='f', ok=True, how=dict(rng.choice(GOOD)),
                seed=seed, len=n)]
    if rng.random() < .5:
        ops.insert(0, dict(ev='cache', how='yes'))
    calls = []
    while len(calls) < 3:
        calls = Files().ops(rng, 'o', n)
    name = 'l/' + rng.choice(NAMES)
    for loc in (dict(kind='http', u='f'),
                dict(kind='http', u='f'),
                dict(kind='path', exists=True, name=name, seed=seed, len=n),
                dict(kind='file', exists=True, name=name, seed=seed, len=n)):
        ops.append(dict(ev=rng.choice(['open', 'fopen']), o='o', loc=loc,
                        d=dict(variant='none', seed=0, len=0)))
        ops += calls
    return dict(urls=['f'], ops=ops)


def replayed(ctx, rng):
    result = ctx.check_model('MC_Fetch', CFG % ('{"u", "v"}', 'TRUE',
                                                '{"p"}'), workers=1)
    transitions = ctx.emitted(result)
    ctx.notes['model_transitions'] = len(transitions)
    down = dict(ok=False, c=dict(seed=0, len=0))
    start = dict(srv=dict(u=down, v=down), on='no', cached={}, objs={})
    for t in transitions:
        for s in (t['s'], t['t']):
            s['cached'] = s['cached'] or {}
            s['objs'] = s['objs'] or {}
    tours = cat.tours(transitions, length=40, start=start)
    rng.shuffle(tours)
    scenarios = []
    for tour in tours[:ctx.pick(60, 3000)]:
        ops = []
        for o in tour:
            if o['op'] == 'srv':
                op = serve(ctx, rng, o['u'], o['ok'])
                if o['ok']:
                    op.update(seed=o['seed'], len=o['seed'] * 20)
            elif o['op'] == 'cache':
                op = dict(ev='cache', how=o['on'])
            elif o['op'] == 'open':
                op = dict(ev='open', o=o['o'], loc=dict(kind='http',
                                                        u=o['u']))
            else:
                op = dict(ev='read', o=o['o'], n=rng.choice([None, 5]),
                          crash=rng.random() < .03)
            ops.append(op)
        scenarios.append(dict(urls=['u', 'v'], ops=ops))
    return scenarios


def run(ctx):
    rng = ctx.rng('fetch')
    if ctx.prop == 'F03':
        ctx.check_model('MC_Fetch', CFG % (
            ctx.pick('{"u"}', '{"u", "v"}'), 'FALSE', '{"p", "q"}'))
    www, url = web.start(ctx)
    closed = socket.socket()
    closed.bind(('127.0.0.1', 0))
    scenarios = replayed(ctx, rng)
    for _ in range(ctx.pick(300, 5000)):
        scenarios.append(random_history(ctx, rng, .3 if ctx.prop == 'F03'
                                        else .03))
    for _ in range(ctx.pick(80, 1000)):
        scenarios.append(same_calls(ctx, rng))
    ctx.judge('d_fetch', 'TraceFetch', scenarios, shards=6, params=dict(
        www=www, url=url, dead='http://127.0.0.1:%d' %
        closed.getsockname()[1]))
