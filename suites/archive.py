"""F04: unpacking archives of sources."""
import hashlib
import io
import lzma
import os
import tarfile
import zipfile

from lib import catalog as cat, web

FORMATS = ['tar.gz', 'tar.bz2', 'tar.xz', 'zip']
OTHERS = ['tar', 'tgz', 'tbz2', 'rar', 'gz', 'tar.Z', 'tar.lz', 'txt', '7z',
          'tar.gz.sig', 'xz', 'zip.part', 'bz2']
NAMES = ['s-1.0.%s', 's.%s', 'a.b.c-1.%s', 'tar.%s', 'zip.%s', 'a b.%s',
         'x.zip.%s', 'x.tar.%s', 'S_1+2~3.%s']


def token(data):
    return '%d:%s' % (len(data), hashlib.sha1(data).hexdigest()[:10])


def pack(members, fmt, variant, several=0):
    """The bytes of the archive."""
    raw = io.BytesIO()
    if fmt == 'zip':
        z = zipfile.ZipFile(raw, 'w', zipfile.ZIP_DEFLATED
                            if variant % 2 else zipfile.ZIP_STORED)
        for m in members:
            name = '/'.join(m['path']) or '.'
            if m['k'] == 'd':
                name = name.rstrip('/') + '/'
            info = zipfile.ZipInfo(name, (2013, 6, 1, 0, 0, 0))
            info.create_system = 3
            info.compress_type = z.compression
            info.external_attr = (int(m['mode'], 8) | (
                0o40000 if m['k'] == 'd' else 0o100000)) << 16
            z.writestr(info, m['data'])
        z.close()
        return raw.getvalue()
    short = all(len('/'.join(m[x])) < 99 for m in members
                for x in ('path', 'to'))
    tar = tarfile.open(fileobj=raw, mode='w', format=[
        tarfile.GNU_FORMAT, tarfile.PAX_FORMAT,
        tarfile.USTAR_FORMAT if short else tarfile.GNU_FORMAT][variant % 3])
    for m in members:
        info = tarfile.TarInfo('/'.join(m['path']) or '.')
        info.mode = int(m['mode'], 8)
        info.mtime = 1370000000
        info.type = dict(d=tarfile.DIRTYPE, f=tarfile.REGTYPE,
                         l=tarfile.SYMTYPE, h=tarfile.LNKTYPE)[m['k']]
        if m['k'] == 'l':
            info.linkname = m['c']
        elif m['k'] == 'h':
            info.linkname = '/'.join(m['to'])
        elif m['k'] == 'f':
            info.size = len(m['data'])
        tar.addfile(info, io.BytesIO(m['data']) if m['k'] == 'f' else None)
    tar.close()
    data = raw.getvalue()
    shrink = lzma.compress if fmt == 'tar.xz' else \
        lambda part: cat.compress(part, fmt[4:])
    if several and fmt != 'tar.bz2':
        # in several streams, as parallel compressors do (this Python only
        # reads the first one of a tar.bz2)
        cut = len(data) * several // 10
        return shrink(data[:cut]) + shrink(data[cut:])
    return shrink(data)


def fill(rng, a):
    """Give contents to the members of the model."""
    table = {}
    for m in a:
        if m['k'] == 'f':
            if m['c'] not in table:
                n = rng.choice([0, 1, 10, 511, 512, 513, 5000, 40000])
                table[m['c']] = bytes(rng.choice(b'abc\n\x00\xff')
                                      for _ in range(n)) + m['c'].encode()
            m['data'] = table[m['c']]
            m['c'] = token(m['data'])
        else:
            m['data'] = b''
    return a


def random_archive(rng, fmt, roots):
    """A tree as programs pack them."""
    a, dirs, files = [], [], []
    names = ['a', 'b', 'configure', 'Makefile', 'src', 'x' * 60, 'a b', '.hid',
             'a.tar.gz', '-x', 'lib', '%s', '...', 'y' * 99]
    modes = ['644', '755', '600', '664', '444', '555', '711', '4755', '777']
    lead = rng.choice([[], [], ['.']])
    top = []
    for root in roots:
        top.append([root])
        if rng.random() < .7:
            a.append(dict(path=lead + [root], k='d', mode=rng.choice(
                ['755', '700', '775', '555'])))
        dirs.append([root])
    seen = set(map(tuple, dirs))
    for _ in range(rng.randint(0 if a else 1, 10)):
        parent = rng.choice(dirs)
        if len(parent) > 4:
            continue
        p = parent + [rng.choice(names)]
        if tuple(p) in seen and not (p in files and rng.random() < .3):
            continue
        again = tuple(p) in seen
        seen.add(tuple(p))
        k = rng.choice('fffd' if fmt == 'zip' else 'ffffddlh')
        if again:
            k = 'f'
        if k == 'h' and not files:
            k = 'f'
        m = dict(path=lead + p, k=k, mode=rng.choice(modes))
        if rng.random() < .1:
            m['path'] = lead + ['.'] + p if not lead else p
        if k == 'd':
            dirs.append(p)
            m['mode'] = rng.choice(['755', '700', '775', '555', '711'])
        elif k == 'f':
            files.append(p)
        elif k == 'l':
            m['c'] = rng.choice(['a', '../b', 'nowhere', '..', 'src'])
        else:
            to = rng.choice(files)
            m['to'] = next(x for x in reversed(a)
                           if [c for c in x['path'] if c != '.'] == to)['path']
            m['mode'] = [x for x in a if x['path'] == m['to']][-1]['mode']
        if k == 'f':
            m['data'] = bytes(rng.randrange(256) for _ in range(
                rng.choice([0, 1, 7, 512, 3000, 20000])))
            m['c'] = token(m['data'])
        a.append(m)
    for root in roots:
        if not any([c for c in m['path'] if c != '.'][0] == root for m in a):
            a.append(dict(path=lead + [root], k='d', mode='755'))
    if rng.random() < .2:
        a.insert(0, dict(path=['.'], k='d', mode='755'))
    # what is linked to must stay what it was
    linked = [[c for c in m.get('to', []) if c != '.'] for m in a]
    last = {}
    for i, m in enumerate(a):
        last[tuple(c for c in m['path'] if c != '.')] = i
    a = [m for i, m in enumerate(a)
         if m['k'] == 'd' or [c for c in m['path'] if c != '.'] not in linked
         or last[tuple(c for c in m['path'] if c != '.')] == i]
    first = {}
    for i, m in enumerate(a):
        first.setdefault(tuple(c for c in m['path'] if c != '.'), i)
    a = [m for i, m in enumerate(a) if m['k'] != 'h' or
         first.get(tuple(c for c in m['to'] if c != '.'), i) < i]
    for m in a:
        m.setdefault('c', '')
        m.setdefault('to', [])
        m.setdefault('data', b'')
    return a


def scenario(ctx, rng, base, a, fmt, n, damage=None, ext=None):
    data = pack(a, fmt, rng.randrange(6),
                rng.choice([0, 0, 0, 0, rng.randint(1, 9)]))
    name = rng.choice(NAMES) % (ext or fmt)
    whole = 'yes'
    if damage == 'empty' and fmt == 'zip':
        # Jython fails to look for the end of an empty file
        damage = 'garbage'
    if damage is not None:
        whole = {'garbage': 'alien', 'empty': 'alien', 'text': 'alien',
                 'other': 'other'}.get(damage, 'cut')
        if damage == 'garbage':
            data = bytes(rng.randrange(256) for _ in range(3000))
        elif damage == 'empty':
            data = b''
        elif damage == 'other':
            other = rng.choice([f for f in FORMATS if f != fmt])
            a = [m for m in a if m['k'] in 'df']
            data = pack(a, other, 0)
        elif damage == 'text':
            data = b'<html>Not found</html>\n'
        else:
            data = data[:max(30, int(len(data) * damage))]
    path = os.path.join(base, '%d-%s' % (n, name.replace(' ', '_')))
    with open(path, 'wb') as f:
        f.write(data)
    how = rng.choice(['open', 'vopen', 'url', 'file', 'http'])
    if ' ' in name and how in ('url', 'file', 'http'):
        how = 'open'
    noxz = fmt == 'tar.xz' and not ext and rng.random() < .1
    if noxz:
        whole = 'alien'
    return dict(path=path, name=name, how=how, noxz=noxz,
                a=[dict((k, v) for k, v in m.items() if k != 'data')
                   for m in a],
                format=ext or fmt, whole=whole,
                relative=rng.random() < .2 and
                not any(m['k'] in 'lh' for m in a),
                target=rng.choice(['t', 't', 'a b/t']),
                old=rng.choice([[], [], ['o'], ['o/x', 'zz']]))


def run(ctx):
    rng = ctx.rng('archive')
    cfg = ('INIT Init\nNEXT Next\nINVARIANT Right\nCHECK_DEADLOCK FALSE\n'
           'INVARIANT Printed\nCONSTANT Size = %d\nCONSTANT Emit = %s\n')
    ctx.check_model('MC_Archive', cfg % (ctx.pick(3, 4), 'FALSE'))
    emitted = ctx.emitted(ctx.check_model('MC_Archive', cfg % (
        ctx.pick(2, 3), 'TRUE'), workers=1))
    www, url = web.start(ctx)
    archives = sorted((e['a'] or [] for e in emitted), key=repr)
    ctx.notes['archives_of_the_model'] = len(archives)
    result = []

    def add(*args, **kw):
        result.append(scenario(ctx, rng, www, *(args + (len(result),)), **kw))
    if len(archives) > 4000:
        archives = rng.sample(archives, 4000)
    for a in archives:
        fill(rng, a)
        kinds = set(m['k'] for m in a)
        formats = FORMATS if not kinds & set('lh') else FORMATS[:3]
        if len(set(tuple(c for c in m['path'] if c != '.') for m in a)) < \
                len(a):
            # a zip should not name a file twice
            formats = FORMATS[:3]
        if not a:
            # Jython cannot read an empty zip
            formats = FORMATS[:3]
        add(a, rng.choice(formats))
    for _ in range(ctx.pick(350, 4000)):
        fmt = rng.choice(FORMATS)
        roots = rng.choice([['s-1.0']] * 6 + [['s'], ['.s'], ['a b'], ['s', 't'],
                                              ['s-1.0', 's-1.1'], ['..s']])
        a = random_archive(rng, fmt, roots)
        r = rng.random()
        if fmt == 'zip':
            seen = {}
            for m in a:
                seen[tuple(c for c in m['path'] if c != '.')] = m
            a = list(seen.values())
        if r < .1:
            add(a, fmt, ext=rng.choice(rng.choice(
                [OTHERS, [fmt + '.part', fmt + 'x', fmt + '~']])))
        elif r < .3:
            add(a, fmt, damage=rng.choice(
                ['garbage', 'empty', 'other', 'text', .1, .3, .5, .7, .9, .99,
                 rng.random(), rng.random()]))
        else:
            add(a, fmt)
    ctx.judge('d_archive', 'TraceArchive', result, shards=6,
              params=dict(url=url))
