"""X02: the command line."""
import io
import json
import os
import subprocess
import tarfile

from lib import catalog as cat, core, vers
from lib.req import ANY, CURRENT, render, req, sel

ENVS = ['A', 'B', 'C']
PLACES = [dict(A='env', B='other', C='third'),
          dict(A='env', B='env-2', C='missing/inner'),
          dict(A='with space', B='x.y+z', C='p%sq')]
VALUES = ['v', '', ' two words ', '100%', '%(prefix)s', 'http://x/?a=b&c',
          u'\u00e9t\u00e9', 'None', '42', '"q"', 'true']
KEYS = ['k', 'repository.url', 'a b', u'\u00e9', 'packages']


class Stuff(object):

    def __init__(self, ctx):
        base = os.path.join(ctx.work, 'stuff')
        self.tools = os.path.join(base, 'bin')
        os.makedirs(self.tools)
        subprocess.check_call(['gcc', '-O1', '-o', self.tools + '/tool',
                               os.path.join(core.VERIF, 'lib', 'helper.c')])
        out = io.BytesIO()
        with tarfile.open(fileobj=out, mode='w') as tar:
            info = tarfile.TarInfo('src/README')
            info.size = 2
            tar.addfile(info, io.BytesIO(b'hi'))
        self.source = os.path.join(base, 'src.tar.gz')
        with open(self.source, 'wb') as f:
            f.write(cat.compress(out.getvalue(), 'gz'))
        for path in (base, self.tools):
            os.chmod(path, 0o755)
        os.chmod(self.source, 0o644)


class Gen(object):
    """A history of commands."""

    def __init__(self, ctx, rng, c, stuff, apart):
        self.ctx, self.rng, self.c, self.stuff = ctx, rng, c, stuff
        self.apart = apart
        self.places = rng.choice(PLACES)
        self.there = set()
        self.ops, self.files, self.formulas, self.repositories = \
            [], [], [], {}
        self.varnames = sorted(set(x['name'] for p in c['pkgs']
                                   for x in p['vars']))
        for p in c['pkgs']:
            p['text'] = '%s==%s' % (p['n'], vers.text(p['v']))

    def scenario(self):
        return dict(ops=self.ops, places=self.places, files=self.files,
                    formulas=self.formulas, repodir=self.c['repodir'],
                    pkgs=[dict(meta=p['meta'], path=p['path'])
                          for p in self.c['pkgs']],
                    varnames=self.varnames,
                    mark=self.rng.choice(['m', 'a b', '', '1:2']))

    def emit(self, o, argv, options=(), cwd=None, prints=0, status=0,
             signal=0):
        """``argv``: the name of the command, and its arguments."""
        options = list(options)
        self.rng.shuffle(options)
        # options may come before, among or after the arguments
        words = [[a] for a in argv[1:]]
        for option in options:
            words.insert(self.rng.randint(0, len(words))
                         if '--' not in argv else 0, option)
        argv = argv[:1] + [w for ws in words for w in ws]
        if self.rng.random() < .1:
            argv.insert(0, self.rng.choice(['-D', '--debug']))
        self.ops.append(dict(ev='cli', o=o, argv=argv, prints=prints,
                             cwd=cwd or self.rng.choice(['@D', '@D/else']),
                             status=status, signal=signal, apart=self.apart
                             and all(ord(x) < 128 for a in argv for x in a)))

    def env(self, name, cwd):
        """How to write the environment."""
        where = self.places[name]
        return self.rng.choice(['@' + name] * 3 + ['@' + name + '/'] + [
            (where if cwd == '@D' else '../' + where)])

    def flag(self, short, long, value):
        return self.rng.choice([[short, value], [long, value],
                                [long, value]])

    def pick(self):
        """An environment given or not, and a current one or not."""
        rng = self.rng
        given = rng.choice([''] + sorted(self.there)) \
            if rng.random() < .6 else rng.choice(sorted(self.there) or [''])
        cur = rng.choice([''] + sorted(self.there)) \
            if rng.random() < .7 else ''
        return given, cur

    def on_env(self, o, argv, options=()):
        cwd = self.rng.choice(['@D', '@D/else'])
        options = list(options)
        if o['env']:
            options.append(self.flag('-e', '--environment',
                                     self.env(o['env'], cwd)))
        self.emit(o, argv, options, cwd)

    def repo(self, given):
        return [self.flag('-r', '--repository', '@I')] if given else []

    def install(self, given, cur, i=None, repo=None):
        rng, c = self.rng, self.c
        repo = rng.random() < .85 if repo is None else repo
        o = dict(cmd='install', env=given, cur=cur, repo=repo, how='path',
                 i=0, req=req('x'))
        if i is None and rng.random() < .5:
            o['how'] = 'text'
            o['req'] = req(rng.choice(c['pkgs'])['n'] if rng.random() < .95
                           else 'nosuch', rng.choice([CURRENT, ANY]),
                           s=[] if rng.random() < .5 else
                           [sel(rng.choice(['==', '>=', '<']),
                                rng.choice(c['pkgs'])['v'])])
            what = render(o['req'], rng)
        else:
            o['i'] = i or rng.randint(1, len(c['pkgs']))
            what = '@%d' % o['i']
        self.on_env(o, ['install', what], self.repo(repo))

    def uninstall(self, given, cur, n=None):
        names = [p['n'] for p in self.c['pkgs']] + ['nosuch']
        o = dict(cmd='uninstall', env=given, cur=cur,
                 n=n or self.rng.choice(names))
        self.on_env(o, ['uninstall', o['n']])

    def list(self, given, cur):
        self.on_env(dict(cmd='list', env=given, cur=cur), ['list'])

    def get(self, given, cur, k=None):
        o = dict(cmd='get', env=given, cur=cur,
                 k=self.rng.choice(KEYS) if k is None else k)
        self.on_env(o, ['config:get', o['k']])

    def set(self, given, cur, k=None, v=None):
        o = dict(cmd='set', env=given, cur=cur,
                 k=self.rng.choice(KEYS) if k is None else k,
                 v=self.rng.choice(VALUES) if v is None else v)
        self.on_env(o, ['config:set', o['k'], o['v']])

    def demands(self):
        rng, c = self.rng, self.c
        demands = {}
        for p in c['pkgs']:
            for d in p['deps']:
                demands[d['n']] = d
        for p in c['pkgs']:
            demands.setdefault(p['n'], req(p['n'], CURRENT))
        reqs = [demands[n] for n in rng.sample(sorted(demands), min(
            len(demands), rng.choice([1, 1, 2, 3])))]
        if rng.random() < .1:
            reqs.append(req('nosuch'))
        return reqs

    def mkenv(self, given, cur, reqs=None, repo=None):
        rng, c = self.rng, self.c
        repo = rng.random() < .8 if repo is None else repo
        bad = False
        options = self.repo(repo)
        if reqs is None and rng.random() < .5:
            reqs = self.demands()
        if reqs:
            name = 'req-%d.txt' % len(self.files)
            self.files.append(dict(path='@D/' + name, data='\n'.join(
                render(d, rng) for d in reqs) + rng.choice(['', '\n'])))
            if rng.random() < .1:
                name, bad = 'nosuch.txt', True
            options.append(self.flag('-R', '--requirements', '@D/' + name))
        cwd = rng.choice(['@D', '@D/else'])
        where = self.env(given, cwd)
        bad = bad or '/' in self.places[given]
        self.emit(dict(cmd='mkenv', env=given, cur=cur, reqs=reqs or [],
                       repo=repo, bad=bad), ['mkenv', where], options, cwd)
        if not bad:
            self.there.add(given)

    def printenv(self, given, cur):
        cwd = self.rng.choice(['@D', '@D/else'])
        export = self.rng.random() < .5
        self.emit(dict(cmd='printenv', env=given, cur=cur,
                       export='yes' if export else 'no'),
                  ['printenv', self.env(given, cwd)],
                  [[self.rng.choice(['-x', '--export'])]] if export else [],
                  cwd)

    def execute(self, given, cur):
        rng = self.rng
        cwd = rng.choice(['@D', '@D/else'])
        words = [rng.choice(['a', 'b c', '', "it's", '"q"', 'x=y', '*', '$x',
                             '\\', '%s', 'a;b'])
                 for _ in range(rng.choice([0, 1, 2, 4]))]
        status = rng.choice([0, 0, 0, 1, 2, 255])
        signal = rng.choice([0] * 8 + [15])
        argv = ['exec', self.env(given, cwd)]
        if rng.random() < .3:
            words.append(rng.choice(['-x', '--version', '-e', '--y=z']))
            argv.append('--')
        name = 'tool' if rng.random() < .9 else 'nosuchtool'
        o = dict(cmd='exec', env=given, cur=cur, args=[name] + words,
                 fails=bool(status or signal or name != 'tool'))
        if name != 'tool':
            # it is not run
            return
        self.emit(o, argv + [name] + words, cwd=cwd, status=status,
                  signal=signal, prints=rng.choice([0, 20]))

    def shell(self, given, cur):
        rng = self.rng
        cwd = rng.choice(['@D', '@D/else'])
        status = rng.choice([0, 0, 1, 3])
        text, args = rng.choice([('tool', ['tool']),
                                 ("tool -x 'a b'", ['tool', '-x', 'a b'])])
        self.emit(dict(cmd='shell', env=given, cur=cur, args=args,
                       fails=bool(status)), ['shell', self.env(given, cwd)],
                  [self.flag('-s', '--shell', text)], cwd, status=status)

    def formula(self, base, deps=()):
        rng = self.rng
        k = len(self.formulas)
        fails = rng.random() < .25
        f = dict(cls='F%d' % k, name='f%d' % k, version=rng.choice(
            ['1.0', '2', '1.2rc1']), revision=rng.choice([1, 2, 10]),
            platform='any', source=self.stuff.source, deps=[
                render(d) for d in deps],
            command='false' if fails else 'true')
        f['path'] = '%s/%s/%s-%s.py' % (base, f['name'], f['name'],
                                        f['version'])
        self.formulas.append(f)
        return dict(file='%s-%s-%d-any.ipkg' % (f['name'], f['version'],
                                                f['revision']), fails=fails,
                    path=f['path'])

    def build(self, given, cur):
        rng = self.rng
        cwd = rng.choice(['@D', '@D/else'])
        update = rng.random() < .4
        deps = []
        if not update and rng.random() < .5:
            # what a build leaves of an environment is not said here
            given = ''
            deps = self.demands()
        repo = not update and (rng.random() < .8 if deps
                               else rng.random() < .3)
        f = self.formula('@D/build', deps)
        keep = rng.random() < .2
        o = dict(cmd='build', env=given, cur=cur, update=update,
                 file=f['file'], fails=f['fails'], deps=deps, repo=repo,
                 keep=keep)
        options = []
        if keep:
            options.append([rng.choice(['-k', '--keep-build-dir'])])
        if given:
            options.append(self.flag('-e', '--environment',
                                     self.env(given, cwd)))
        if update:
            options += [[rng.choice(['-u', '--update-repository'])],
                        self.flag('-r', '--repository', '@R')]
        elif repo:
            options += self.repo(True)
        if not update and self.apart and rng.random() < .6:
            # the current directory is where packages go
            cwd = '@O'
            options = [x for x in options if x[0] not in
                       ('-e', '--environment')]
            o['env'] = ''
        else:
            options.append(self.flag('-p', '--package-dir', '@O'))
        for x in ('-v', '--verbose'):
            if rng.random() < .1:
                options.append([x])
        self.emit(o, ['build', f['path']], options, cwd)

    def mkrepo(self, given='', cur=''):
        self.emit(dict(cmd='mkrepo', env='', cur=cur), ['mkrepo', '@R'])

    def buildrepo(self, given, cur):
        rng = self.rng
        cwd = rng.choice(['@D', '@D/else'])
        if self.repositories and rng.random() < .5:
            base = rng.choice(sorted(self.repositories))
        else:
            base = '@F/%d' % len(self.repositories)
            self.repositories[base] = [self.formula(base) for _ in
                                       range(rng.choice([1, 2, 3]))]
        fs = self.repositories[base]
        options = []
        if given:
            options.append(self.flag('-e', '--environment',
                                     self.env(given, cwd)))
        if rng.random() < .2:
            options.append(['-v'])
        self.emit(dict(cmd='buildrepo', env=given, cur=cur, formulas=[
            dict(file=f['file'], fails=f['fails']) for f in fs]),
            ['build-repository', '@R', base], options, cwd)

    def user(self):
        """A package added to the local repository, or removed from it."""
        good = [k for k, p in enumerate(self.c['pkgs'], 1)
                if p['ok'] is True]
        if good:
            k = self.rng.choice(good)
            self.ops.append(dict(ev='user', path='@%d' % k,
                                 name=self.c['pkgs'][k - 1]['n']))

    def some(self, n):
        rng = self.rng
        self.mkenv('A', '', repo=True)
        while len(self.ops) < n:
            given, cur = self.pick()
            r = rng.random()
            if r < .3:
                self.install(given, cur)
            elif r < .4:
                self.uninstall(given, cur)
            elif r < .48:
                self.list(given, cur)
            elif r < .56:
                self.set(given, cur)
            elif r < .62:
                self.get(given, cur)
            elif r < .69:
                self.mkenv(rng.choice(ENVS), cur)
            elif r < .75:
                self.user()
            elif r < .8:
                self.mkrepo(given, cur)
            elif r < .86:
                self.build(given, cur)
            elif r < .89:
                self.buildrepo(given, cur)
            elif given:
                rng.choice([self.printenv, self.printenv, self.execute,
                            self.execute, self.shell])(given, cur)


def model_scenarios(ctx, stuff):
    rng = ctx.rng('cli-model')
    cats = cat.small_catalogs(rng)
    # few packages: the states of two environments multiply
    few = [dict(cats[0], pkgs=cats[0]['pkgs'][:1] + cats[0]['pkgs'][3:],
                repo=[1, 2, 3]),
           dict(cats[1], pkgs=cats[1]['pkgs'][3:], repo=[1]),
           dict(cats[4], pkgs=cats[4]['pkgs'][2:4], repo=[1, 2])]
    for k, c in enumerate(few):
        c['links'] = {}
        c['repodir'] = cat.write(c, os.path.join(ctx.work, 'cat-m%d' % k))
    path = ctx.path('catalogs', '.ndjson')
    with open(path, 'w') as f:
        for k, c in enumerate(few):
            f.write(json.dumps(dict(tla(c), config=k == 2)) + '\n')
    result = ctx.check_model(
        'MC_Cli', 'INIT Init\nNEXT Next\nVIEW View\nPROPERTY Right\n'
        'PROPERTY Aimed\nPROPERTY Refused\nACTION_CONSTRAINT Printed\n'
        'CHECK_DEADLOCK FALSE\nCONSTANT Emit = TRUE\n', {'CATALOGS': path},
        workers=1)
    if '"BAD"' in result['out']:
        at = result['out'].index('"BAD"')
        raise core.MachineryError('model: ' + result['out'][at:at + 2000])
    transitions = ctx.emitted(result)
    ctx.notes['model_transitions'] = len(transitions)
    gone = dict(rec=[], files=[], cfg=[], here=False)
    result = []
    for k, c in enumerate(few, 1):
        mine = [t for t in transitions if t['k'] == k]
        start = [t['s'] for t in mine if not t['s']['A']['here'] and
                 not t['s']['B']['here']][0]
        tours = cat.tours(mine, length=40, start=start)
        rng.shuffle(tours)
        for tour in tours[:ctx.pick(14, 300)]:
            g = Gen(ctx, rng, c, stuff, False)
            for o in tour:
                args = o['env'], o['cur']
                cmd = o['cmd']
                if cmd == 'install':
                    g.install(*args, i=o['i'], repo=o['repo'])
                elif cmd == 'uninstall':
                    g.uninstall(*args, n=o['n'])
                elif cmd == 'set':
                    g.set(*args, k=o['k'], v=o['v'])
                elif cmd == 'get':
                    g.get(*args, k=o['k'])
                elif cmd == 'list':
                    g.list(*args)
                elif cmd == 'mkenv':
                    g.mkenv(*args, reqs=o['reqs'] or None, repo=True) \
                        if o['reqs'] else g.mkenv(*args, reqs=[], repo=True)
            result.append((c, g.scenario()))
    return result


def tla(c):
    return dict(cat.tla(c), spec=[
        '%s==%s' % (p['n'], vers.text(p['v'])) for p in c['pkgs']])


def run(ctx):
    # the name of this machine has a slash: it is another one
    CURRENT[1] = '7'
    stuff = Stuff(ctx)
    pairs = model_scenarios(ctx, stuff)
    rng = ctx.rng('cli')
    n, apart = ctx.pick(90, 1200), ctx.pick(6, 60)
    for k in range(n + apart):
        c = cat.random_catalog(rng, consistent=True, deep=True)
        c['links'] = {}
        c['repodir'] = cat.write(c, os.path.join(ctx.work, 'cat-%d' % k))
        g = Gen(ctx, rng, c, stuff, k >= n)
        g.some(ctx.pick(5, 12) if k >= n else 20)
        pairs.append((c, g.scenario()))
    rng.shuffle(pairs)
    for k, (c, s) in enumerate(pairs):
        s['id'] = k
    known = dict((s['id'], c) for c, s in pairs)

    def strip(event):
        event = dict(event)
        event.pop('why', None)
        if event['ev'] == 'init':
            event['cat'] = tla(known[event['id']])
        return event
    ctx.judge('d_cli', 'TraceCli', [s for c, s in pairs], strip=strip,
              params=dict(jython=core.JYTHON), shards=ctx.pick(6, 8),
              env={'PATH': stuff.tools + ':/bin:/usr/bin'})
