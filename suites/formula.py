"""B01, B02, B03: building a formula."""
import hashlib
import io
import json
import os
import random
import shlex
import subprocess
import tarfile
import zipfile

from lib import catalog as cat, core, vers
from lib.req import ANY, CURRENT, render, req, sel

TOOLS = ['tool', 'make', 'my_tool', 'cp2']
WHERE = ['bin', 'lib', 'share/doc', '', 'lib/deep/er', 'etc', 'share/a b',
         'tmp', 'include', 'lib64']
FILES = ['', 'one line\n', '#!/bin/sh\necho\n', '\x00\x01\xff' * 40,
         '#!@P/bin/x\n', 'prefix=@P\n', 'no newline', 'x' * 5000,
         '\x7fELF\x00@P/lib\x00']
LINES = ['line %d\n' % i for i in range(1, 31)]


def text(data):
    return 'none' if data is None else '%d:%s' % (
        len(data), hashlib.sha1(data.encode('latin-1')).hexdigest()[:12])


def patched(n):
    """The source file after n patches, and the nth patch."""
    lines = list(LINES)
    for k in range(n):
        # they only apply in order
        lines[3] = 'patched %d\n' % k
    return lines


def diff(k):
    import difflib
    return ''.join(difflib.unified_diff(patched(k), patched(k + 1),
                                        'data.txt', 'data.txt'))


class Stuff(object):
    """Source archives and patches, written once for each kind."""

    def __init__(self, ctx):
        self.base = os.path.join(ctx.work, 'stuff')
        os.mkdir(self.base)
        self.made = {}
        self.tools = os.path.join(ctx.work, 'tools')
        os.mkdir(self.tools)
        subprocess.check_call(['gcc', '-O1', '-o', self.tools + '/tool',
                               os.path.join(core.VERIF, 'lib', 'helper.c')])
        for name in TOOLS[1:]:
            os.link(self.tools + '/tool', os.path.join(self.tools, name))
        os.chmod(self.tools, 0o755)
        os.chmod(self.base, 0o755)

    def put(self, name, data):
        path = os.path.join(self.base, name)
        if name not in self.made:
            with open(path, 'wb') as f:
                f.write(data)
            os.chmod(path, 0o644)
            self.made[name] = data
        return path

    def source(self, kind, data, wrong, rng):
        """A file, or something wrong: what File() is given."""
        names = dict(path=data[0], sum='', algo='')
        algo = rng.choice(['sha256', 'sha1', 'md5', 'sha512'])
        value = getattr(hashlib, algo)(data[1]).hexdigest()
        if wrong == 'missing':
            names['path'] = '/nowhere/' + os.path.basename(data[0])
        elif wrong == 'sum':
            names.update(algo=algo, sum=value[:-1] + 'fe'[value[-1] == 'f'])
        elif rng.random() < .4:
            names.update(algo=algo, sum=value)
        return names

    def archive(self, rng, top, wrong):
        fmt = rng.choice(['gz', 'gz', 'bz2', 'zip'])
        if wrong == 'cut' and fmt == 'zip':
            # Jython raises Java's errors
            fmt = 'gz'
        name = 'src-%s-%s.%s' % (top, wrong if wrong in
                                 ('two', 'text', 'cut') else '', fmt if
                                 fmt == 'zip' else 'tar.' + fmt)
        if name not in self.made:
            members = [(top + '/data.txt', ''.join(LINES).encode(), 0o644),
                       (top + '/configure', b'#!/bin/bash\nexec -a "$0" '
                        b'tool "$@"\n', 0o755),
                       (top + '/sub/x', b'x', 0o644)]
            if wrong == 'two':
                members.append(('other/x', b'x', 0o644))
            out = io.BytesIO()
            if fmt == 'zip':
                with zipfile.ZipFile(out, 'w') as z:
                    for path, data, mode in members:
                        z.writestr(zipfile.ZipInfo(path), data)
            else:
                with tarfile.open(fileobj=out, mode='w') as tar:
                    for path, data, mode in members:
                        info = tarfile.TarInfo(path)
                        info.size, info.mode = len(data), mode
                        tar.addfile(info, io.BytesIO(data))
            data = out.getvalue()
            if fmt != 'zip':
                # the same for the same seed
                data = cat.compress(data, fmt)
            if wrong == 'text':
                data = b'not an archive\n' * 9
            if wrong == 'cut':
                data = data[:len(data) * 2 // 3]
            self.put(name, data)
        return (os.path.join(self.base, name), self.made[name]), fmt

    def patch(self, k, wrong):
        data = (diff(k) if wrong != 'bad' else
                diff(k).replace(' line', ' other').replace('-line', '-other')
                ).encode()
        name = 'p%d%s.diff' % (k, '-bad' if wrong == 'bad' else '')
        return self.put(name, data), data


def effects(rng, c, patches, made, count):
    """What a step makes."""
    does, puts = [], []
    for _ in range(count):
        r = rng.random()
        mode = rng.choice([0o644, 0o644, 0o755, 0o444, 0o600, 0o555, 0o640])
        if r < .12 and c['pkgs']:
            files = [f['path'] for p in c['pkgs'] for f in p['files']]
            path = rng.choice(files + ['share/mine-0'])
        elif r < .2 and made:
            path = rng.choice(sorted(made))
        else:
            path = os.path.join(rng.choice(WHERE), 'made-%d%s' % (
                rng.randint(0, 30), rng.choice(['', '', '', '.la', ' x'])))
        if path.startswith('lib64/'):
            path = 'opt/' + path
        kind = rng.choice('fffffflchd')
        put = dict(path=path, kind=kind, mode=mode, data='', target='')
        if kind == 'd':
            mine = [p for p in made if 'made-' in p]
            if not mine:
                continue
            put['path'] = path = rng.choice(sorted(mine))
            tok = 'none'
            made.pop(path)
        elif kind == 'l':
            put['target'] = rng.choice(['nowhere', 'made-0', 'sub/dir', '.'])
            tok = 'l:' + put['target']
        elif kind == 'h':
            regular = [p for p in made if made[p].startswith('f:')
                       and p != path]
            if not regular:
                continue
            put['target'] = rng.choice(sorted(regular))
            tok = made[put['target']]
        else:
            data = ''.join(patched(patches)) if kind == 'c' else \
                rng.choice(FILES)
            put['data'] = data if kind == 'f' else ''
            tok = 'f:%o:%s' % (mode, cat.digest(data.encode('latin-1')))
        if tok != 'none':
            made[path] = tok
        does.append(put)
        # the last word on a path is what counts
        puts = [p for p in puts if p['path'] != path]
        puts.append(dict(path=path, tok=tok))
    return does, puts


def quoted(rng, words):
    return ' '.join(shlex.quote(w) if not w or rng.random() < .2 or
                    shlex.quote(w) != w else w for w in words)


def custom_step(rng, c, n, made, trouble, variables):
    words = [rng.choice(['a', 'b=c', '-x', 'a b', "it's", '', '%s', '--p=/x',
                         '%(prefix)s', '"q"'])
             for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    name = rng.choice(TOOLS)
    step = dict(how=rng.choice(['attr', 'attr', 'list', 'text']), name=name,
                args=None, data=None, cwd='', mkdir=True, status=0, signal=0,
                reads=0, does=[], counts=True)
    plain = [w for w in words if w and ' ' not in w]
    if step['how'] == 'attr':
        argv = [name]
        r = rng.random()
        if r < .4:
            step['args'] = rng.choice([' ', '  ', '\t']).join(plain)
            argv += plain
        elif r < .8 or words:
            step['args'] = words
            argv += words
    elif step['how'] == 'list':
        argv = step['args'] = [name] + words
    else:
        argv = [name] + words
        step['args'] = quoted(rng, argv)
    cwd = '@S'
    if rng.random() < .25:
        step['cwd'] = cwd = rng.choice(['@S/sub', '@S/new', '@D/w', '@D/w x'])
    if rng.random() < .25:
        step['data'] = rng.choice(['', 'input\n', 'x' * 70000, '\xff\x00'])
        step['reads'] = 1
    fails = False
    if rng.random() < trouble:
        fails = True
        r = rng.random()
        if r < .45:
            step['status'] = rng.choice([1, 2, 127, 255])
        elif r < .6:
            step['signal'] = rng.choice([9, 15])
        elif r < .75:
            step['how'], step['counts'] = 'raise', False
        elif r < .9:
            step['counts'] = False
            if step['how'] == 'attr':
                step['name'] = 'nosuchtool'
            elif step['how'] == 'list':
                step['args'] = ['nosuchtool'] + words
            else:
                step['args'] = 'nosuchtool ' + quoted(rng, words)
        else:
            step.update(cwd='@D/missing', mkdir=False, counts=False)
    run, puts = [], []
    if step['counts']:
        step['does'], puts = effects(rng, c, n, made,
                                     rng.choice([0, 1, 2, 4]))
        run = [dict(args=argv, cwd=cwd, input=text(step['data']),
                    vars=variables, home='@P')]
    return step, dict(kind='raise' if step['how'] == 'raise' else 'command',
                      fails=fails, run=run, puts=puts)


def default_steps(rng, c, n, made, trouble, variables, configure_args):
    """./configure, make, make install."""
    real, steps = [], []
    args = configure_args if configure_args is not None else \
        ['--prefix=%(prefix)s']
    places = dict((k, '@P' + v) for k, v in cat.ENV_DIRS.items())
    for argv in ([['./configure'] + [a % places for a in args], ['make'],
                  ['make', 'install']]):
        fails = rng.random() < trouble
        status = rng.choice([1, 2]) if fails else 0
        does, puts = effects(rng, c, n, made, rng.choice([0, 1, 3]))
        real.append(dict(does=does, status=status, signal=0, reads=0,
                         counts=True))
        steps.append(dict(kind='command', fails=fails, puts=puts, run=[dict(
            args=argv, cwd='@S', input='none', vars=variables, home='@P')]))
    return real, steps


BUILDVARS = [('CFLAGS', '-I%(include)s', '-I@P/include'),
             ('IPKGV_X', 'plain', 'plain'),
             ('IPKGV_Y', '100%', '100%'), ('IPKGV_Z', '', ''),
             ('DESTDIR', '%(prefix)s/%(lib)s', '@P/@P/lib')]


def formula(rng, c, stuff, trouble=None):
    trouble = rng.choice([0, 0, 0, .15, .3]) if trouble is None else trouble
    demands = {}
    for p in c['pkgs']:
        for d in p['deps']:
            demands[d['n']] = d
    for p in c['pkgs']:
        if p['n'] not in demands:
            demands[p['n']] = req(p['n'], rng.choice([ANY, CURRENT]),
                                  s=[] if rng.random() < .5 else
                                  [sel('>=', p['v'])])
    demands.pop('nosuch', None)
    deps = [demands[n] for n in rng.sample(sorted(demands), min(
        len(demands), rng.choice([0, 1, 1, 2, 3])))]
    if rng.random() < trouble / 3:
        deps.append(req('nosuch'))
        rng.shuffle(deps)
    n = rng.choice([0, 0, 0, 1, 2, 3])
    patches, patchfiles = [], []
    for k in range(n):
        wrong = rng.choice(['missing', 'sum', 'bad']) \
            if rng.random() < trouble / 2 else 'ok'
        patches.append(wrong)
        patchfiles.append(stuff.source('patch', stuff.patch(k, wrong),
                                       wrong, rng))
    wrong = rng.choice(['missing', 'sum', 'two', 'text', 'cut']) \
        if rng.random() < trouble / 2 else 'ok'
    top = rng.choice(['foo-1.0', 'src', 'a b', 'x%s'])
    default = rng.random() < .25
    archive, fmt = stuff.archive(rng, top, wrong)
    if fmt == 'zip' and default:
        # modes are not kept
        while fmt == 'zip':
            archive, fmt = stuff.archive(rng, top, wrong)
    build_vars = rng.sample(BUILDVARS, rng.randint(1, 3)) \
        if rng.random() < .5 else None
    variables = [v for k, t, v in sorted(build_vars or [])]
    made = {}
    if default:
        configure_args = rng.choice([None, [], ['--a=%(bin)s', 'b c', '%%'],
                                     ['--mandir=%(man)s/x']])
        real, steps = default_steps(rng, c, n, made, trouble / 2, variables,
                                    configure_args)
    else:
        configure_args = None
        real, steps = [], []
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            r, s = custom_step(rng, c, n, made, trouble / 3, variables)
            real.append(r)
            steps.append(s)
    platform = rng.choice(['any', 'any', 'debian-7-x86_64', 'osx-10.8-x86_64',
                           'any-any-x86_64', None, None])
    envvars = rng.choice([None, None, {}, {'FOO': '%(bin)s/x'},
                          {'A': '1', 'B': '100%'}])
    f = dict(name=rng.choice(['zz', 'foo-bar', 'F_o']),
             version=rng.choice(['1.0', '2', '1.10rc1', '0-1']),
             revision=rng.choice([1, 2, '3', 10, 0]), platform=platform,
             homepage=rng.choice([None, 'http://example.org/?a=%20']),
             envvars=envvars, build_envvars=dict(
                 (k, t) for k, t, v in build_vars) if build_vars else None,
             dependencies=[render(d) for d in deps], default=default,
             configure_args=configure_args, top=top,
             src=stuff.source('source', archive, wrong, rng),
             patchfiles=patchfiles, real=real)
    meta = dict(name=f['name'], version=f['version'],
                revision=str(f['revision']),
                platform=platform or 'debian-7-x86_64',
                dependencies=f['dependencies'],
                homepage=f['homepage'] or 'none', envvars=envvars or {})
    return f, dict(deps=deps, sources=wrong, patches=patches, steps=steps,
                   meta=meta, file='%(name)s-%(version)s-%(revision)s-'
                   '%(platform)s.ipkg' % meta)


def build_op(rng, f, t, env, local):
    indexes = local and rng.random() < .4
    return dict(ev='build', f=f, t=t, env=env, repo=indexes or
                bool(not t['deps'] or rng.random() < .92)
                and rng.random() < .95, indexes=indexes,
                keep=rng.random() < .2, verbose=rng.random() < .3)


PREFIXES = ['env'] * 4 + ['a/b/../env-2', 'with space', 'x.y+z', 'p%sq',
                          'env/', './env']


def scenario(ctx, rng, c, name, ops, env, local):
    return dict(catalog=name, repodir=c['repodir'], env=env, local=local,
                pkgs=[dict(meta=p['meta'], path=p['path'])
                      for p in c['pkgs']], ops=ops,
                prefix=rng.choice(PREFIXES), relative=rng.random() < .2)


def random_scenarios(ctx, stuff, count):
    rng = ctx.rng('formula')
    result = []
    for k in range(count):
        c = cat.random_catalog(rng, consistent=True, deep=True)
        c['links'] = {}
        if rng.random() < .15:
            c.update(pkgs=[], repo=[])
        name = 'formula-%d' % k
        c['repodir'] = cat.write(c, os.path.join(ctx.work, 'cat-' + name))
        for _ in range(2):
            env = rng.random() < .75
            local = rng.random() < .3
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                while env and c['pkgs'] and rng.random() < .6:
                    r = rng.random()
                    if r < .6:
                        ops.append(dict(ev='install',
                                        i=rng.randint(1, len(c['pkgs']))))
                    elif r < .75:
                        ops.append(dict(ev='uninstall', n=rng.choice(
                            c['pkgs'])['n']))
                    elif r < .85:
                        ops.append(dict(ev='config', k='k', v='v'))
                    elif r < .95:
                        ops.append(dict(ev='user', path=rng.choice(
                            ['share/mine-0', 'bin/mine', 'x/y/z'])))
                    else:
                        ops.append(dict(ev='reopen'))
                f, t = formula(rng, c, stuff)
                ops.append(build_op(rng, f, t, env, local))
            result.append((c, scenario(ctx, rng, c, name, ops, env, local)))
    return result


def model_scenarios(ctx, stuff):
    """Every history of small problems."""
    rng = ctx.rng('formula-model')
    cats = cat.small_catalogs(rng)[:ctx.pick(4, 5)]
    problems, formulas = [], []
    for k, c in enumerate(cats):
        c['links'] = {}
        c['repodir'] = cat.write(c, os.path.join(ctx.work, 'cat-m%d' % k))
        fs = [formula(rng, c, stuff, trouble) for trouble in
              [0, 0, .4] + ctx.pick([], [0, .3])]
        formulas.append(fs)
        problems.append(dict(cat.tla(c), formulas=[t for f, t in fs]))
    path = ctx.path('problems', '.ndjson')
    with open(path, 'w') as f:
        for p in problems:
            f.write(json.dumps(p) + '\n')
    result = ctx.check_model(
        'MC_Build', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT Package\n'
        'INVARIANT Restored\nINVARIANT Honest\nACTION_CONSTRAINT Printed\n'
        'CHECK_DEADLOCK FALSE\nCONSTANT Emit = TRUE\n', {'PROBLEMS': path},
        workers=1)
    transitions = ctx.emitted(result)
    ctx.notes['model_transitions'] = len(transitions)
    result = []
    for k, c in enumerate(cats):
        mine = [t for t in transitions if t['k'] == k + 1]
        tours = cat.tours(mine, length=25)
        rng.shuffle(tours)
        for tour in tours[:ctx.pick(8, 400)]:
            ops = []
            for o in tour:
                if o['op'] == 'build':
                    f, t = formulas[k][o['j'] - 1]
                    op = build_op(rng, f, t, True, False)
                    op['repo'] = o['repo']
                    ops.append(op)
                elif o['op'] == 'install':
                    ops.append(dict(ev='install', i=o['i']))
                else:
                    ops.append(dict(ev='uninstall', n=o['n']))
            result.append((c, scenario(ctx, rng, c, 'm%d' % k, ops, True,
                                       False)))
    return result


def run(ctx):
    # the name of this machine has a slash: it is another one
    CURRENT[1] = '7'
    stuff = Stuff(ctx)
    pairs = model_scenarios(ctx, stuff) + \
        random_scenarios(ctx, stuff, ctx.pick(110, 1500))
    known = {}
    for k, (c, s) in enumerate(pairs):
        s['id'] = k
        known[k] = cat.tla(c), s
    scenarios = [s for c, s in pairs]

    def strip(event):
        if event['ev'] == 'init':
            event = dict(event, cat=known[event['id']][0])
        elif event['ev'] == 'build':
            s = known[event['id']][1]
            event = dict(event, f=s['ops'][event['at']]['t'])
        return event
    ctx.judge('d_formula', 'TraceBuild', scenarios, strip=strip,
              shards=ctx.pick(6, 8),
              env={'PATH': stuff.tools + ':/bin:/usr/bin'})
