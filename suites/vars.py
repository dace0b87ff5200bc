"""E10: variables of environments."""
LISTS = ['PATH', 'MANPATH', 'PKG_CONFIG_PATH', 'C_INCLUDE_PATH',
         'LD_LIBRARY_PATH']
SUB = ['bin', 'sbin', 'lib', 'include', 'share/man', 'lib/pkgconfig', '']
PLAIN = ['LANG', 'TERM', 'IPKG_ENVIRONMENT', 'TMPDIR', 'PS1', 'HOME', 'CC',
         'CFLAGS', 'DYLD_LIBRARY_PATH', 'X', 'PYTHONPATH', 'LD_PRELOAD_X',
         'PATHS', 'path', 'EMPTY', 'A.B']
VALUES = ['v', '', 'a b', 'x:y', '/e/bin:/e/bin', '%(prefix)s', '100%', 'a=b',
          'two\nlines', ' lead', '$HOME', '@D/env/bin', '"q"', '~', '\\']
PREFIXES = ['env', 'env', 'env', 'with space', 'a/b', 'p%sq', 'x.y+z', 'env2']


def inherited(rng, prefix):
    entries = ['/usr/bin', '/bin', '/opt/x', '/usr/share/man', '.', '/a b',
               '@D/env2/bin', '@D/en/bin', '@D/' + prefix + '2']
    entries += ['@D/%s/%s' % (prefix, s) if s else '@D/' + prefix
                for s in SUB] * 2
    result = {}
    for name in LISTS:
        if rng.random() < .7:
            result[name] = ':'.join(
                rng.choice(entries) for _ in range(rng.randint(1, 7)))
    for name in PLAIN:
        if rng.random() < .4:
            result[name] = rng.choice(VALUES)
    return result


def scenarios(ctx):
    rng = ctx.rng('vars')
    result = []
    for _ in range(ctx.pick(150, 1500)):
        ops = []
        for k in range(rng.choice([1, 1, 2, 3])):
            prefix = rng.choice(PREFIXES)
            op = dict(prefix=prefix, how=rng.choice(
                ['plain', 'plain', 'relative', 'slash', 'dict']),
                nested=k > 0)
            if not k:
                op['inherited'] = inherited(rng, prefix)
            if op['how'] == 'dict' and k == 0:
                # HOME is that of the process
                op['inherited'].pop('HOME', None)
            ops.append(op)
        result.append(dict(what='enter', ops=ops))
    for _ in range(ctx.pick(300, 3000)):
        items = ['a', 'b', 'c', '/d e', 'A']
        ops = [dict(op='new', start=[rng.choice(items) for _ in
                                     range(rng.randint(0, 5))])]
        for _ in range(rng.randint(1, 8)):
            op = rng.choice(['insert', 'insert', 'append', 'remove'])
            ops.append(dict(op=op, x=rng.choice(items)))
            if op == 'insert':
                ops[-1].update(i=rng.choice([0, 0, 1, 2, 9, -1]),
                               explicit=rng.random() < .5)
        result.append(dict(what='edit', ops=ops))
    return result


def run(ctx):
    ctx.check_model('MC_Vars', 'INIT Init\nNEXT Next\nINVARIANT EnterRight\n'
                    'INVARIANT EditRight\nCHECK_DEADLOCK FALSE\n'
                    'CONSTANT Depth = %d\nCONSTANT Width = %d\n' %
                    (ctx.pick(2, 3), ctx.pick(2, 3)))
    ctx.judge('d_vars', 'TraceVars', scenarios(ctx), shards=4)
