"""V03: package specifications."""
CHARS = list('aZ09_-.=:') + [' ', '\n', '+', '/', '>', u'\xe9', '\t', '==']


def text(rng):
    parts = [rng.choice(['a', 'foo', 'b-1', 'A_9', '-', '7']), '==',
             rng.choice(['1', '1.0', '2.0rc1', '1-2', '.', 'x_y', '1.0.0a1']),
             ':', rng.choice(['1', '10', 'a', '_', '1_b'])]
    chars = list(''.join(parts[:rng.choice([1, 2, 3, 3, 4, 5, 5, 5])]))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        i = rng.randint(0, len(chars))
        if rng.random() < .6 or i == len(chars):
            chars[i:i] = list(rng.choice(CHARS))
        else:
            del chars[i]
    return chars


def package(rng):
    kind = rng.choice(['dict', 'dict', 'dict', 'meta', 'file', 'formula',
                       'plain', 'none', 'int', 'list', 'tuple', 'one',
                       'text', 'empty'])
    p = dict(k=kind)
    if kind in ('none', 'int', 'list', 'tuple', 'one', 'text', 'empty'):
        return p
    name = rng.choice(['a', 'foo', 'b-1', 'A_9', 'a1'])
    version = rng.choice(['1', '1.0', '2.0rc1', '1-2', 'x_y', '10.9',
                          '1.0.dev1', '0'])
    revision = rng.choice([1, '1', 10, '10', 2, '9', 0, '0'])
    if kind == 'dict':
        for k, x in (('n', name), ('v', version), ('r', revision)):
            if rng.random() < .75:
                p[k] = x if rng.random() < .9 or k == 'n' else None
        return p
    return dict(p, n=name, v=version, r=revision)


def run(ctx):
    result = ctx.check_model(
        'MC_PkgSpec', 'INIT Init\nNEXT Next\nINVARIANT RoundTrip\n'
        'INVARIANT OnlyMade\nINVARIANT Printed\nCHECK_DEADLOCK FALSE\n'
        'CONSTANT Max = %d\n' % ctx.pick(4, 5), workers=1)
    texts = [t['t'] for t in ctx.emitted(result)]
    ctx.notes['model_texts_replayed'] = len(texts)
    rng = ctx.rng('specs')
    texts += [text(rng) for _ in range(ctx.pick(1500, 20000))]
    n = 400
    scenarios = [dict(texts=texts[i:i + n]) for i in range(0, len(texts), n)]
    for _ in range(ctx.pick(3, 30)):
        scenarios.append(dict(packages=[package(rng) for _ in range(200)]))
    ctx.judge('d_specs', 'TracePkgSpec', scenarios, shards=ctx.pick(2, 6))
