"""Catalogs of packages: generation, archives, repositories (see Env.tla)."""
import hashlib
import io
import json
import os
import tarfile

from lib import vers
from lib.req import ANY, CURRENT, plat_text, render, req, sel

DIRS = ['bin', 'sbin', 'lib', 'lib/pkgconfig', 'share', 'share/man/man1',
        'include', 'share/%(n)s', 'etc', 'lib/%(n)s/deep/er', 'libexec', '.', 'lib64']
ENV_DIRS = dict(prefix='', bin='/bin', sbin='/sbin', include='/include',
                lib='/lib', share='/share', man='/share/man',
                pkgconfig='/lib/pkgconfig', tmp='/tmp')
# directories of an environment, with the prefix written @P
TLA_DIRS = dict((k, '@P' + v) for k, v in ENV_DIRS.items())


def digest(data):
    return hashlib.sha1(data).hexdigest()[:10]


def token(entry):
    if entry['kind'] == 'l':
        return 'l:' + entry['target']
    return 'f:%o:%s' % (entry['mode'], digest(entry['data'].replace('@B', '@P').encode('latin-1')))


def make_file(rng, n, i, version):
    """One file of package ``n``: paths of different names never collide."""
    directory = rng.choice(DIRS) % dict(n=n)
    name = '%s-%s' % (n, rng.choice(['x', 'y', 'z', 'tool', 'data']))
    if rng.random() < .1:
        name += rng.choice([' sp', '.pc', '.la', '~', '.so.1', u'\xe9'[:0]])
    path = os.path.normpath(os.path.join(directory, name))
    kind = rng.random()
    if kind < .18:
        return dict(path=path, kind='l', mode=0o777, data='',
                    target=rng.choice(['%s-x' % n, '../lib/%s-y' % n,
                                       'nowhere', '../share', '.', 'bin']))
    data = rng.choice(['', 'one line\n', '#!/bin/sh\necho %s\n' % n,
                       'prefix=/usr\nx=1\n', '\x00\x01\xff' * 40,
                       'no newline', '#!', 'text\r\n' * 30,
                       '#!/usr/bin/env x'])
    if rng.random() < .5:
        data += '%s %s %d' % (n, version, i)
    return dict(path=path, kind='f', data=data, target='',
                mode=rng.choice([0o644, 0o644, 0o755, 0o755, 0o444, 0o600,
                                 0o555, 0o640]))


def make_vars(rng, n):
    result = []
    for i in range(rng.choice([0, 0, 1, 2])):
        name = 'IPKGV_%s_%d' % (n.replace('-', '_'), rng.randint(0, 2))
        if name in [x['name'] for x in result]:
            continue
        if rng.random() < .25:
            text = rng.choice(['100%', '%(nosuch)s', '%', '%(prefix', '%d',
                               '50% of %(bin)s', '%(prefix)d'])
            result.append(dict(name=name, raw=True, text=text, parts=[]))
        else:
            parts = []
            for _ in range(rng.randint(1, 3)):
                if rng.random() < .5:
                    parts.append(dict(d=rng.choice(sorted(ENV_DIRS)), t=''))
                else:
                    parts.append(dict(d='', t=rng.choice(
                        ['/x', ':', 'plain', '', '-I', ' '])))
            text = ''.join('%%(%s)s' % p['d'] if p['d'] else p['t']
                           for p in parts)
            result.append(dict(name=name, raw=False, text=text, parts=parts))
    return result


def package(rng, n, v, r, deps=(), plat=ANY, nfiles=None, ok=True,
            files=None, variables=None):
    if files is None:
        files, seen = [], set()
        for i in range(rng.randint(0, 5) if nfiles is None else nfiles):
            f = make_file(rng, n, i, vers.text(v))
            # no file may be below another one
            if f['path'] in seen or any(f['path'].startswith(s + '/') or
                                        s.startswith(f['path'] + '/')
                                        for s in seen):
                continue
            seen.add(f['path'])
            files.append(f)
        # another name of the same file
        regular = [f for f in files if f['kind'] == 'f']
        if regular and rng.random() < .12:
            f = rng.choice(regular)
            path = f['path'] + '-hard'
            if path not in seen:
                files.append(dict(f, path=path, kind='h', target=f['path']))
    return dict(n=n, v=v, r=r, p=plat, deps=list(deps), ok=ok, files=files,
                vars=make_vars(rng, n) if variables is None else variables,
                style=rng.choice(['bz2', 'bz2', 'gz', '']),
                cut=rng.random(), salt=rng.randint(0, 9))


def meta(p, rng=None):
    return {
        'name': p['n'], 'version': vers.text(p['v']), 'revision': str(p['r']),
        'platform': plat_text(p['p']),
        'dependencies': p.setdefault(
            'deptexts', [render(d, rng) for d in p['deps']]),
        'homepage': None, 'hostname': 'builder', 'timestamp': 1372.5,
        'files': [f['path'] for f in p['files']],
        'build_prefix': p.get('build_prefix', '/build/%s/env' % p['n']),
        'build_platform': '-'.join(CURRENT),
        'envvars': dict((x['name'], x['text']) for x in p['vars']) or None,
    }


def filename(p):
    return '%(name)s-%(version)s-%(revision)s-%(platform)s.ipkg' % meta(p)


def archive(p, m):
    """The bytes of the package archive."""
    raw = io.BytesIO()
    tar = tarfile.open(fileobj=raw, mode='w', format=tarfile.GNU_FORMAT)
    content = json.dumps(m, indent=4).encode()
    offsets = []

    def add(name, **kw):
        info = tarfile.TarInfo(name)
        data = kw.pop('data', b'')
        info.size = len(data)
        for key, value in kw.items():
            setattr(info, key, value)
        info.mtime = 1372000000
        offsets.append(tar.offset)
        tar.addfile(info, io.BytesIO(data) if data else None)
    add('.ipkg.meta', data=content, mode=0o644)
    for f in p['files']:
        if f['kind'] == 'f':
            add(f['path'], data=f['data'].replace('@B', m['build_prefix'])
                .encode('latin-1'), mode=f['mode'])
        elif f['kind'] == 'h':
            add(f['path'], type=tarfile.LNKTYPE, linkname=f['target'],
                mode=f['mode'])
        else:
            add(f['path'], type=tarfile.SYMTYPE, linkname=f['target'],
                mode=0o777)
    last = offsets[-1]
    tar.close()
    data = raw.getvalue()
    style = p['style']
    how = p['ok']
    if how is not True:
        # which damage? cut at a member, inside a header, or bytes replaced
        if len(offsets) < 2 or p['cut'] < .2:
            return {0: b'', 1: b'not a package\n'}.get(
                int(p['cut'] * 10) % 2, b'')
        if p['cut'] < .4:
            return data[:last]
        if p['cut'] < .55:
            return data[:last + 100]
        if p['cut'] < .7:
            data = data[:last]
        else:
            return compress(data, style or 'gz')[:-(len(compress(
                data, style or 'gz')) // 2)]
    return compress(data, style)


def compress(data, style):
    if style == 'bz2':
        import bz2
        return bz2.compress(data)
    if style == 'gz':
        import gzip
        out = io.BytesIO()
        with gzip.GzipFile(fileobj=out, mode='wb', mtime=0) as f:
            f.write(data)
        return out.getvalue()
    return data


def write(catalog, base):
    """Write archives and repository of ``catalog`` below ``base``."""
    repo = os.path.join(base, 'repo')
    loose = os.path.join(base, 'loose')
    os.makedirs(repo)
    os.makedirs(loose)
    index = {}
    for i, p in enumerate(catalog['pkgs'], 1):
        m = meta(p)
        data = archive(p, m)
        if i in catalog['repo']:
            path = os.path.join(repo, p['n'], filename(p))
            entry = dict(m, checksum=hashlib.sha256(data).hexdigest())
            index.setdefault(p['n'], []).append(entry)
        else:
            path = os.path.join(loose, filename(p))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(data)
        p['path'] = path
        p['meta'] = m
    with open(os.path.join(repo, 'repository.json'), 'w') as f:
        json.dump(index, f, indent=4)
    for parent, dirs, files in os.walk(base):
        os.chmod(parent, 0o755)
        for name in files:
            os.chmod(os.path.join(parent, name), 0o644)
    return repo


def real(catalog, path):
    """Where a file of the catalog is, directories being links."""
    for link, target in catalog.get('links', {}).items():
        if path.startswith(link + '/'):
            return target + path[len(link):]
    return path


def tla(catalog):
    """What the specification sees of a catalog."""
    return dict(
        pkgs=[dict(n=p['n'], p=p['p'], v=p['v'], r=p['r'], deps=p['deps'],
                   files=[dict(path=real(catalog, f['path']), tok=token(f))
                          for f in p['files']],
                   vars=p['vars'], ok=p['ok'] is True)
              for p in catalog['pkgs']],
        repo=catalog['repo'], dirs=TLA_DIRS)


# -- generation --------------------------------------------------------------

def random_catalog(rng, consistent=None, names=None, deep=False):
    names = names or rng.sample(['a', 'b', 'c', 'd', 'lib-e', 'F_f'],
                                rng.randint(2, 5))
    pkgs = []
    flavour = rng.random() if consistent is None else 0
    # the demand on each name, the same for everybody in consistent catalogs
    shared = {}
    universe = rng.sample([[1], [1, 0, 1], [1, 2], [1, 10], [2],
                           [2, vers.RC, 1], [2, 0, vers.PATCH, 1], [3]], 4)
    universe.sort(key=vers.key)

    def demand(n, fresh=False):
        p = rng.choice([ANY, ANY, CURRENT, ['any', 'any', 'x86_64']])
        if rng.random() < .45:
            s = []
        else:
            s = [sel(rng.choice(['>=', '<=', '==', '!=', '>', '<']),
                     rng.choice(universe[:3]))]
        return req(n, p, s=s)
    for n in names:
        shared[n] = demand(n)
    for k, n in enumerate(names):
        versions = rng.sample(universe, rng.choice([1, 1, 2, 3]))
        uniform = None
        for v in versions:
            for r in rng.choice([[1], [1], [1, 2], [9, 10]]):
                others = names[k + 1:] if rng.random() < .85 else names
                deps = []
                for d in rng.sample(others, min(len(others),
                                                rng.choice([0, 1, 1, 2]))):
                    if flavour < .6:
                        deps.append(shared[d])
                    else:
                        deps.append(demand(d))
                if rng.random() < .06:
                    deps.append(req('nosuch'))
                if uniform is not None and rng.random() < .6:
                    deps = uniform
                uniform = deps
                plat = rng.choice([ANY] * 5 + [CURRENT, CURRENT,
                                               ['osx', '10.8', 'x86_64'],
                                               ['any', 'any', 'x86_64']])
                ok = True if rng.random() < .93 else False
                pkgs.append(package(rng, n, v, r, deps, plat, ok=ok))
    rng.shuffle(pkgs)
    repo = [i for i in range(1, len(pkgs) + 1) if rng.random() < .9]
    links = {'lib64': 'usrlib'} if rng.random() < .3 else {}
    if links:
        # the same file must not have two names
        for p in pkgs:
            seen = set()
            p['files'] = [f for f in p['files'] if f['kind'] != 'h' and not (
                real(dict(links=links), f['path']) in seen or
                seen.add(real(dict(links=links), f['path'])))]
    # links to what is not the package's own
    others = [f['path'] for p in pkgs for f in p['files']] + \
        ['share/mine-0', 'share/mine-1', 'bin/mine', 'etc/x/y', 'share/mine-0']
    for p in pkgs:
        for f in p['files']:
            if f['kind'] == 'l' and rng.random() < .5:
                f['target'] = os.path.relpath(rng.choice(others),
                                              os.path.dirname(f['path']))
    return dict(pkgs=pkgs, repo=repo, links=links)


def small_catalogs(rng):
    """Catalogs whose histories are explored exhaustively."""
    result = []

    def pk(n, v, r=1, deps=(), ok=True, nfiles=2):
        return package(rng, n, v, r, deps, ok=ok, nfiles=nfiles)
    # replacement, in both directions, with a dependency
    result.append(dict(pkgs=[
        pk('a', [1], deps=[req('b', s=[sel('>=', [2])])]),
        pk('a', [1, 1], deps=[req('b', s=[sel('>=', [2])])]),
        pk('b', [1]), pk('b', [2]), pk('b', [10], 2)], repo=[1, 2, 3, 4, 5]))
    # diamond, missing package
    result.append(dict(pkgs=[
        pk('a', [1], deps=[req('b'), req('c')]),
        pk('b', [1], deps=[req('d')]), pk('c', [1], deps=[req('d')]),
        pk('d', [1]), pk('e', [1], deps=[req('d'), req('nosuch')])],
        repo=[1, 2, 3, 4, 5]))
    # loop, self loop
    result.append(dict(pkgs=[
        pk('a', [1], deps=[req('b')]), pk('b', [1], deps=[req('c')]),
        pk('c', [1], deps=[req('a')]), pk('d', [1], deps=[req('d')]),
        pk('c', [2]), pk('e', [1], deps=[req('a')])], repo=[1, 2, 3, 4, 6]))
    # broken archives
    result.append(dict(pkgs=[
        pk('a', [1]), pk('a', [2], ok=False),
        pk('b', [1], deps=[req('c')]), pk('c', [1], ok=False),
        pk('d', [1], deps=[req('a', s=[sel('>', [1])])])],
        repo=[1, 2, 3, 4, 5]))
    # different demands on one package
    result.append(dict(pkgs=[
        pk('a', [1], deps=[req('c', s=[sel('==', [1])])]),
        pk('b', [1], deps=[req('c', s=[sel('==', [2])])]),
        pk('c', [1]), pk('c', [2]), pk('d', [1], deps=[req('a'), req('b')])],
        repo=[1, 2, 3, 4, 5]))
    for c in result:
        c['user'] = ['share/user-file', c['pkgs'][0]['files'][0]['path']
                     if c['pkgs'][0]['files'] else 'etc/user']
    return result


# -- tours -------------------------------------------------------------------

def tours(transitions, limit=None, length=60, start=None):
    """Histories from the initial state which take every transition."""
    key = lambda s: json.dumps(s, sort_keys=True)
    out = {}
    for t in transitions:
        out.setdefault(key(t['s']), []).append(t)
    initial = [key(start)] if start is not None else \
        [key(t['s']) for t in transitions if not t['s']['rec'] and
         not t['s']['files']][:1]
    if not initial:
        return []
    initial = initial[0]
    # shortest way from the initial state to each state
    way = {initial: []}
    queue = [initial]
    while queue:
        s = queue.pop(0)
        for t in out.get(s, []):
            n = key(t['t'])
            if n not in way:
                way[n] = way[s] + [t]
                queue.append(n)
    todo = dict((s, list(ts)) for s, ts in out.items())
    result = []
    for s in sorted(way, key=lambda s: len(way[s])):
        while todo.get(s):
            path = list(way[s])
            here = s
            while todo.get(here) and len(path) < length:
                t = todo[here].pop()
                path.append(t)
                here = key(t['t'])
            for t in path:
                k = key(t['s'])
                if t in todo.get(k, ()):
                    todo[k].remove(t)
            result.append([t['o'] for t in path])
    return result
