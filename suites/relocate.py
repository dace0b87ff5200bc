"""E08: prefixes are rewritten where they must be, and nowhere else."""
import os

from lib import catalog as cat

OTOOL = '''#!/bin/sh
echo "$2:"
grep -a '^LIB ' "$2" | sed 's/^LIB /\t/; s/$/ (compatibility version 1.0)/'
'''
NAME_TOOL = '''#!/bin/sh
for last in "$@"; do :; done
echo CALL >> "$TOOL_LOG"
[ -w "$last" ] && echo WRITABLE >> "$TOOL_LOG"
for a in "$@"; do printf 'ARG %s\\n' "$a" >> "$TOOL_LOG"; done
'''

TEXTS = ['/bin/python', ' ', '/lib', ':', 'x=1', '-I', '${prefix}', '"', "'",
         '\xe9', '\x00\x01', '#', '/', '\\', '%s', 'end', '\t']
ENDS = ['\n'] * 6 + ['\r\n', '\n\n', ' \n']


def line(rng, start=None, prefix=None):
    pieces = [start] if start else []
    for _ in range(rng.randint(0, 4)):
        pieces.append('@B' if rng.random() < .45 else rng.choice(TEXTS))
    if prefix and '@B' not in pieces:
        pieces.insert(len(pieces[:1]), '@B')
    if start is None and pieces and pieces[0] == '@B' and rng.random() < .5:
        pieces.insert(0, rng.choice(['exec_prefix=', 'includedir=', 'dir=',
                                     ' ', 'my_prefix=']))
    return pieces + [rng.choice(ENDS)]


def lines(rng, kind):
    marks = {'pc': ['prefix=', 'prefix=', 'exec_prefix=', 'libdir='],
             'la': ['libdir=', 'libdir=', 'dlname=', 'prefix=']}.get(
                 kind, ['prefix=', 'libdir='])
    result = []
    if kind == 'script':
        result.append(line(rng, '#!', rng.random() < .8))
    if kind == 'macho':
        result.append(['MAGIC', '...\n'])
        for _ in range(rng.randint(0, 4)):
            result.append(['LIB '] + rng.choice([
                ['@B', '/lib/lib%d.dylib' % rng.randint(1, 3)],
                ['@B', '/lib/l.dylib'], ['@B', '/a (1)/l b.dylib'], ['/usr/lib/libSystem.B.dylib'],
                ['@rpath/x', '@B', '/lib/y.dylib'], ['/opt', '@B', '/z']])
                + ['\n'])
        return result
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        r = rng.random()
        if kind in ('pc', 'la') and r < .5:
            result.append(line(rng, rng.choice(marks), rng.random() < .7))
        elif r < .6:
            result.append(line(rng, rng.choice(['#!', '# ', 'LIB '])
                               if result else None))
        else:
            result.append(line(rng))
    if result and len(result) > 1 and rng.random() < .25:
        # the last line is not ended
        result[-1] = [p for p in result[-1][:-1]] + ['.']
    if kind in ('pc', 'la', 'data') and result and result[0][:1] == ['#!']:
        result[0][0] = '#'
    return result


def place(rng, kind, n):
    if kind == 'pc':
        return rng.choice(['lib', 'lib', 'lib64']) + \
            '/pkgconfig/%d.%s' % (n, 'pc')
    if kind == 'la':
        return rng.choice(['lib', 'lib', 'lib64']) + '/lib%d.la' % n
    name = 'f%d%s' % (n, rng.choice(['', '', '.py', ' x', '.so.1', '.txt']))
    if kind == 'macho' and rng.random() < .7:
        return rng.choice(['bin', 'lib', 'lib64', 'libexec/d']) + '/' + name
    return rng.choice(['bin', 'bin', 'sbin', 'lib', 'lib/python2.7/x',
                       'lib64', 'libexec', 'libexec/d', 'lib/pkgconfig',
                       'share', 'share/doc/x', 'etc', 'include', '.',
                       'share/lib', 'share/bin', 'var/lib/x']) + '/' + name


MAGIC = ['\xce\xfa\xed\xfe', '\xcf\xfa\xed\xfe']


def make(rng, build):
    files, seen = [], set()
    for n in range(rng.randint(2, 9)):
        kind = rng.choice(['script', 'script', 'script', 'pc', 'pc', 'la',
                           'data', 'macho', 'macho'])
        path = os.path.normpath(place(rng, kind, n))
        ls = lines(rng, kind)
        magic = rng.choice(MAGIC)
        data = ''.join({'@B': build, 'MAGIC': magic}.get(p, p)
                       for l in ls for p in l)
        files.append(dict(path=path, kind='f', data=data, target='',
                          mode=rng.choice([0o644, 0o755, 0o755, 0o555, 0o444,
                                           0o600, 0o711, 0o500, 0o664]),
                          lines=ls, magic=magic))
    scripts = [f for f in files]
    for n in range(rng.randint(0, 2)):
        target = rng.choice(scripts)['path']
        files.append(dict(path='bin/link%d' % n, kind='l', data='',
                          target='../' + target, mode=0o777, lines=[],
                          magic=''))
    return files


def spec(f):
    comps = f['path'].split('/')
    ls = f['lines']
    return dict(path=f['path'], comps=comps,
                ext=os.path.splitext(comps[-1])[1],
                lib=len(comps) > 1 and comps[0].startswith('lib'),
                kind=f['kind'], target=f['target'], mode=f['mode'],
                lines=ls)


def scenarios(ctx):
    rng = ctx.rng('relocate')
    base = os.path.join(ctx.work, 'reloc')
    os.mkdir(base)
    os.chmod(base, 0o777)
    result = []
    for k in range(ctx.pick(240, 1500)):
        here = os.path.join(base, '%d' % k)
        os.mkdir(here)
        os.chmod(here, 0o777)
        prefix = os.path.join(here, rng.choice(
            ['env', 'env', 'with space', 'x.y+z', 'p%sq', 'a/b/c', '\\1']))
        build = rng.choice([
            '/build/env', '/build/env', prefix, prefix, prefix + '/sub',
            os.path.dirname(prefix), '/q', '/build.x+y/(env)', '/tmp',
            '/build/env with space', prefix[:-1], prefix + '2'])
        files = make(rng, build)
        p = cat.package(rng, 'p', [1], 1, files=files, variables=[])
        p['build_prefix'] = build
        data = cat.archive(p, cat.meta(p))
        path = os.path.join(here, 'p-1-1-any-any-any.ipkg')
        with open(path, 'wb') as f:
            f.write(data)
        # as the specification sees it
        result.append(dict(
            prefix=prefix, build=build, path=path,
            how=rng.choice(['path', 'obj']),
            files=[spec(f) for f in files],
            magic=[f['magic'] for f in files]))
    return result


def run(ctx):
    ctx.check_model('MC_Relocate', 'INIT Init\nNEXT Next\nINVARIANT Same\n'
                    'INVARIANT Identity\nINVARIANT Elsewhere\n'
                    'INVARIANT OneLine\nCHECK_DEADLOCK FALSE\n'
                    'CONSTANT Max = %d\n' % ctx.pick(3, 4))
    todo = scenarios(ctx)
    tools = os.path.join(ctx.scratch, 'tools')
    os.mkdir(tools)
    for name, text in (('otool', OTOOL), ('install_name_tool', NAME_TOOL)):
        with open(os.path.join(tools, name), 'w') as f:
            f.write(text)
        os.chmod(os.path.join(tools, name), 0o755)
    magics = iter(ctx.only(todo))

    def strip(event):
        if event['ev'] == 'relocate':
            s = next(magics)
            for f, m in zip(event['files'], s['magic']):
                # the number which makes a file a Mach-O one has two values
                if m and f['text'].startswith(m) and f['lines'][:1] and \
                        f['lines'][0][:1] == ['MAGIC']:
                    f['text'] = 'MAGIC' + f['text'][len(m):]
        return event
    ctx.judge('d_relocate', 'TraceRelocate', todo, strip=strip, shards=6,
              env={'PATH': tools + ':/bin:/usr/bin:/usr/sbin:/sbin'})
