"""E09: nothing outside is touched."""
import io
import json
import os
import tarfile
import zipfile
from concurrent import futures

from lib import catalog as cat, core


PRECAUTIONS = ('way', 'parent', 'target', 'copy', 'again', 'dir', 'removal',
               'links')


def cfg(forgotten, steps, wide):
    return ('INIT Init\nNEXT Next\nVIEW View\nINVARIANT Contained\n'
            'CHECK_DEADLOCK FALSE\nCONSTANT Forgotten = {%s}\n'
            'CONSTANT Steps = %d\nCONSTANT Wide = %s\n' %
            (', '.join('"%s"' % f for f in forgotten), steps, wide))


class Maker(object):
    """Turns a sequence of the model into archives and operations."""

    def __init__(self, rng, base, names, home):
        self.rng = rng
        self.base = base          # D: P and O are there
        self.names = names
        self.home = home          # where archives are written
        self.n = 0

    def name(self, comps):
        return '/'.join(self.names.get(c, c) for c in comps) or '.'

    def path(self, comps, absolute, root=()):
        if absolute:
            return os.path.join(self.base, self.name(comps))
        return self.name(list(root) + comps)

    def tar(self, steps, style, meta=None, root=()):
        raw = io.BytesIO()
        tar = tarfile.open(fileobj=raw, mode='w',
                           format=tarfile.GNU_FORMAT)

        def add(info, data=b''):
            info.size = len(data)
            info.mtime = 1100000000
            tar.addfile(info, io.BytesIO(data) if data else None)
        if meta is not None:
            info = tarfile.TarInfo('.ipkg.meta')
            info.mode = 0o644
            add(info, json.dumps(meta).encode())
        for m in steps:
            info = tarfile.TarInfo(self.path(m['path'], m['abs'], root))
            info.mode = 0o604
            if m['k'] == 'f':
                add(info, b'#!/build/p/env/bin/x\nnew\n')
                continue
            if m['k'] == 'd':
                info.type = tarfile.DIRTYPE
                info.mode = 0o705
            elif m['k'] == 'l':
                info.type = tarfile.SYMTYPE
                info.linkname = self.path(
                    m['target'], m['tabs'],
                    ['..'] * len(root) if m['target'][:1] == ['..'] else [])
            else:
                info.type = tarfile.LNKTYPE
                info.linkname = self.path(m['target'], m['tabs'], root)
            add(info)
        tar.close()
        return cat.compress(raw.getvalue(), style)

    def write(self, name, data):
        self.n += 1
        path = os.path.join(self.home, '%d-%s' % (self.n, name))
        with open(path, 'wb') as f:
            f.write(data)
        return path

    def ops(self, seq, kind):
        """Operations: runs of members are archives."""
        rng = self.rng
        runs, result = [[]], []
        for m in seq:
            if m['k'] == 'e':
                runs.append([])
            elif m['k'] == 'u':
                runs += [[m], []]
            else:
                if runs[-1] and runs[-1][0]['k'] == 'u':
                    runs.append([])
                runs[-1].append(m)
        for steps in runs:
            if not steps:
                continue
            if steps[0]['k'] == 'u':
                result.append(dict(ev='uninstall', n='u', record=self.meta(
                    'u', [self.path(m['path'], m['abs']) for m in steps])))
            elif kind == 'package':
                listed = [self.path(m['path'], m['abs']) for m in steps
                          if m['k'] != 'd']
                if rng.random() < .2:
                    listed = []
                meta = self.meta('p%d' % (self.n % 2), listed)
                path = self.write('p.ipkg', self.tar(
                    steps, rng.choice(['bz2', 'gz']), meta))
                result.append(dict(ev='extract', path=path)
                              if rng.random() < .15 else
                              dict(ev='install', path=path,
                                   how=rng.choice(['obj', 'path'])))
                if rng.random() < .3:
                    result.append(dict(ev='uninstall', n=meta['name']))
            elif kind == 'sources':
                style = rng.choice(['bz2', 'gz', 'xz'])
                root = rng.choice([['r'], []])
                data = self.tar(steps, style if style != 'xz' else '',
                                root=root)
                if style == 'xz':
                    import lzma
                    data = lzma.compress(data)
                result.append(dict(ev='unarchive', path=self.write(
                    's.tar.' + style, data)))
            else:
                raw = io.BytesIO()
                z = zipfile.ZipFile(raw, 'w')
                root = rng.choice([['r'], []])
                for m in steps:
                    name = self.path(m['path'], m['abs'], root)
                    info = zipfile.ZipInfo(name + '/' if m['k'] == 'd'
                                           else name)
                    if m['k'] == 'l':
                        info.create_system = 3
                        info.external_attr = 0o120777 << 16
                        z.writestr(info, self.path(m['target'], m['tabs']))
                    elif m['k'] == 'd':
                        z.writestr(info, b'')
                    else:
                        z.writestr(info, b'new')
                z.close()
                result.append(dict(ev='unarchive', path=self.write(
                    's.zip', raw.getvalue())))
        return result

    def meta(self, name, files):
        return dict(name=name, version='%d' % self.n, revision='1',
                    platform='any-any-any', dependencies=[], homepage=None,
                    hostname='x', timestamp=1.5, files=files,
                    build_prefix='/build/p/env', envvars=None,
                    build_platform='any-any-any')


def random_seq(rng, n):
    names = ['a', 'b', 's', 'e', 'O', 'lib', 'x']
    seq = []

    def path():
        r = rng.random()
        if r < .15:
            return ['O'] + [rng.choice(['s', 'e', 'x', 'lib'])], True
        comps = [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))]
        for _ in range(rng.choice([0, 0, 1, 2])):
            comps.insert(rng.randint(0, len(comps)), '..')
        if rng.random() < .1:
            comps.insert(rng.randint(0, len(comps)), '.')
        return comps, False
    made = [['a'], ['b']]
    for _ in range(n):
        k = rng.choice('fffdllllhhhue')
        p, a = path()
        if rng.random() < .5:
            # below, or at, what is there
            p, a = rng.choice(made) + rng.choice([[], ['s'], ['e'], ['x'],
                                                  ['e', 's']]), False
        if rng.random() < .3:
            t, ta = rng.choice([(['..', 'O'], False), (['O'], True),
                                (['..', 'O', 's'], False), (['..'], False)])
        elif rng.random() < .4:
            t, ta = rng.choice(made), False
        else:
            t, ta = path()
        if k in 'ld' and not a:
            made.append(p)
        seq.append(dict(k=k, path=p, abs=a, target=t if k in 'lh' else [],
                        tabs=ta and k in 'lh'))
    return seq


def build(ctx, attacks):
    rng = ctx.rng('contain')
    base = os.path.join(ctx.work, 'contain')
    os.mkdir(base)
    os.chmod(base, 0o755)
    chosen = []
    for w in ('all',) + PRECAUTIONS:
        mine = [a for a in attacks if a['w'] == w]
        rng.shuffle(mine)
        mine.sort(key=lambda a: len(a['seq']))
        n = ctx.pick(60 if w != 'all' else 300, 4000)
        # the shortest, and some of the others
        for a in mine[:n] + rng.sample(mine[n:], min(n, len(mine[n:]))):
            chosen.append((a['seq'], a['links'], rng.choice(
                ['package', 'package', 'sources'])))
    for _ in range(ctx.pick(500, 6000)):
        chosen.append((random_seq(rng, rng.randint(1, 6)), [], rng.choice(
            ['package', 'package', 'sources', 'zip'])))
    scenarios, batch = [], []
    for k, (seq, links, kind) in enumerate(chosen):
        if links and kind != 'package':
            kind = 'package'
        here = os.path.join(base, '%d' % k)
        home = os.path.join(here, 'in')
        os.makedirs(home)
        os.chmod(here, 0o777)
        names = rng.choice([{}, {'a': 'lib', 'b': 'bin'},
                            {'a': 'bin', 'b': 'lib'}])
        # another directory whose name starts the same
        out = rng.choice(['O', 'O', 'Px'])
        names = dict(names, O=out)
        maker = Maker(rng, here, names, home)
        ops = maker.ops(seq, kind)
        if ops:
            scenarios.append(dict(
                base=here, out=out, ops=ops, links=dict(
                    (names.get('a', 'a'), maker.path(l['t'], l['a']))
                    for l in links)))
    return scenarios


def run(ctx):
    ctx.check_model('MC_Contain', cfg(['none'], 2, 'TRUE'))
    ctx.check_model('MC_Contain', cfg(['none'], ctx.pick(3, 4), 'FALSE'))
    # one worker each: the sequences printed must always be the same
    jobs = [(w, steps, wide) for steps, wide in [(3, 'FALSE'), (2, 'TRUE')]
            for w in ('all',) + PRECAUTIONS]
    with futures.ThreadPoolExecutor(8) as pool:
        results = list(pool.map(lambda j: ctx.check_model(
            'MC_Contain', cfg(j[:1], *j[1:]), workers=1), jobs))
    attacks = [a for r in results for a in ctx.emitted(r)]
    for w in PRECAUTIONS:
        if w not in [a['w'] for a in attacks]:
            core.log('no attack depends on precaution', w)
    ctx.notes['attacks_of_the_model'] = len(attacks)
    scenarios = build(ctx, attacks)
    ctx.notes['attacks_tried'] = len(scenarios)
    if not attacks:
        raise core.MachineryError('the model knows no attack')
    ctx.judge('d_contain', 'TraceContain', scenarios, shards=6,
              strip=lambda e: dict((k, v) for k, v in e.items()
                                   if k in ('ev', 'before', 'after')))
