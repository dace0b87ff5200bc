"""X01: running commands."""
import json
import os
import subprocess

from lib import core

CODES = [1, 2, 3, 127, 126, 128, 255]
SIGNALS = [9, 15, 6, 11, 1]


def base(**kw):
    result = dict(find='absolute', found='ok', reads=0, out=0, err=0, status=0,
                  signal=0, text=None, words=['@'], unicode=False, tuple=False,
                  cwd=None, data=None, infile=None, outto='pipe',
                  errto='pipe', how='execute', env=None)
    result.update(kw)
    return result


def words(rng):
    pool = ['a', '', ' ', 'a b', "'", '"', '\\', '$HOME', '*', '`x`', '-x',
            '--a=b c', '%s', '%(x)s', '#', ';', '\n', '\t', '&&', '>o', '~',
            'x' * 3000, '{}', "it's", '""']
    return [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]


def scenarios(ctx, texts):
    rng = ctx.rng('exec')
    result = []
    for text in texts:
        result.append(base(text='@ ' + text, unicode=rng.random() < .1))
    # the program itself may be quoted, or there may be none
    for text in ['', ' ', '\n', "''", '""', "'@'", '"@"', ' @', '\t@\n',
                 '@#a', "'@' 'b", '@ a\\', "@''", '@ # b', '@ a#b "c\\d"',
                 '@ "a\nb" c\\\nd', "@ a'b'\"c\"d"]:
        result.append(base(text=text))
    alphabet = "ab '\"\\#$;|-=\t\n%"
    for _ in range(ctx.pick(150, 2000)):
        result.append(base(text='@ ' + ''.join(
            rng.choice(alphabet) for _ in range(rng.randint(1, 25)))))
    result.append(base(words=[]))
    result.append(base(words=['']))
    for _ in range(ctx.pick(450, 4000)):
        s = base(words=['@'] + words(rng))
        if rng.random() < .35:
            s['text'] = '@ ' + rng.choice(['', 'a', '"b c"', "'d'  e"])
        s['unicode'] = rng.random() < .15
        s['tuple'] = rng.random() < .1
        s['find'] = rng.choice(['absolute', 'absolute', 'path', 'here',
                                'link'])
        s['in'] = rng.choice(['d', 'd', 'd', 'a b', 'x/y'])
        if s['text'] and s['in'] == 'a b':
            s['text'] = s['text'].replace('@', "'@'")
        r = rng.random()
        if r < .2:
            s['status'] = rng.choice(CODES)
        elif r < .3:
            s['signal'] = rng.choice(SIGNALS)
        elif r < .45:
            s['found'] = rng.choice(['missing', 'forbidden', 'directory',
                                     'interpreter', 'below'])
            if s['find'] == 'here' and s['found'] == 'below':
                s['found'] = 'missing'
        if s['find'] != 'here':
            s['cwd'] = rng.choice([None, None, 'w', 'w x', 'file', 'missing',
                                   'w/v', 'w'])
        s['reads'] = int(rng.random() < .6)
        if rng.random() < .5:
            s['data'] = rng.choice([0, 1, 100, 5000, 100000, 300000]) \
                if s['reads'] else 0
        if rng.random() < .4:
            s['infile'] = rng.choice([0, 10, 70000])
        if s['data'] is None and s['infile'] is None:
            # it would read what the driver reads
            s['infile'] = 0
        for stream in ('out', 'err'):
            s[stream] = rng.choice([0, 0, 1, 60, 4096, 100000, 300000])
            s[stream + 'to'] = rng.choice(['pipe', 'pipe', 'file', 'none'])
        if rng.random() < .4:
            s['env'] = dict((rng.choice(['A', 'B', 'PATH', 'HOME', 'X_Y']),
                             rng.choice(['', 'a', 'b c', 'x=y', '%s', '$A',
                                         'l\nm', '/usr/bin']))
                            for _ in range(rng.randint(0, 4)))
            s['env'] = s['env'] or {}
        elif rng.random() < .3:
            s['how'] = 'env'
        result.append(s)
    return result


def run(ctx):
    ctx.check_model(
        'MC_Exec', 'INIT Init\nNEXT Next\nINVARIANT Agree\nCHECK_DEADLOCK '
        'FALSE\nCONSTANT Length = %d\nCONSTANT Emit = FALSE\n' %
        ctx.pick(6, 7))
    emitted = ctx.check_model(
        'MC_Exec', 'INIT Init\nNEXT Next\nINVARIANT Printed\nCHECK_DEADLOCK '
        'FALSE\nCONSTANT Length = %d\nCONSTANT Emit = TRUE\n' %
        ctx.pick(4, 5), workers=1)
    texts = sorted(set(''.join(v['t']) for v in ctx.emitted(emitted)))
    ctx.notes['texts_of_the_model'] = len(texts)
    binary = os.path.join(ctx.work, 'helper')
    bin_ = os.path.join(ctx.work, 'bin')
    subprocess.check_call(['gcc', '-O1', '-o', binary,
                           os.path.join(core.VERIF, 'lib', 'helper.c')])
    os.mkdir(bin_)
    os.chown(bin_, core.NOBODY, core.NOBODY)
    os.chown(binary, core.NOBODY, core.NOBODY)
    ctx.judge('d_exec', 'TraceExec', scenarios(ctx, texts), shards=6,
              params=dict(helper=binary, bin=bin_),
              env={'PATH': bin_ + ':/usr/bin:/bin'})
