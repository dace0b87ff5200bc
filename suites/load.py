"""B04: loading formulas from files."""
import json
import os

CFG = ('INIT Init\nNEXT Next\n%s\nCHECK_DEADLOCK FALSE\n'
       'CONSTANT KeyOf = "%s"\nCONSTANT Depth = %d\nCONSTANT Emit = %s\n')
SAFE = 'abcdefgh'
# of files given by their path; some are modules of Python or of ipkg
NAMES = ['x-1.0.py', 'x-1_0.py', 'x.py', 'x-1.0', 'y-2.py', 'x-1.0.python.py',
         'x-1.0.py', 'x-1.0.py', 'x.1.0.py', 'json.py', 'ipkg.py', 'build.py',
         'tarfile.py', '__main__.py', 'formula', 'a b.py', 'x%2e.py',
         'ipkg.build.py', 'x-1.0.pyx', 'os.path.py']
DIRS = ['p', 'q', 'p/x-1', 'p.1', 'p_1', 'p-1']
REPO_NAMES = ['x-1.0.py', 'x-1_0.py', 'x-1-0.py', 'y-1.0.py', 'x-y-2.py',
              'x_y-2.py', 'x-1.0.1.py', 'X-1.0.py', 'x-1.0.py.py', '9-9.py',
              'x--1.py', 'x-1.0-2.py']
DECOYS = ['README', 'x.py', 'x-1.0.py~', 'x-1.0.pyc', '.x-1.0.py.swp',
          'x-1.0$py.class', 'x-1.0.pyo', 'x-1.0.txt', 'x 1-1.0.py',
          'x-1.0.py.orig', '#x-1.0.py#']
ATTRS = ['name', 'version', 'revision', 'homepage', 'platform',
         'dependencies', 'envvars', 'configure_args']


class Maker(object):

    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def id(self):
        self.n += 1
        return self.n

    def attrs(self):
        rng = self.rng
        a = dict(name=rng.choice(['x', 'y', 'x-y', 'foo']),
                 version=rng.choice(['1', '1.0', '2.0-rc1']), sources='s')
        if rng.random() < .5:
            a['revision'] = rng.choice([1, 2, 10, 'a'])
        if rng.random() < .3:
            a['homepage'] = 'http://h/' + str(self.n)
        if rng.random() < .3:
            a['platform'] = rng.choice(['any', 'osx-10.8-x86_64'])
        if rng.random() < .3:
            a['dependencies'] = rng.sample(['a', 'b==1.0', 'any:c>2'], 2)
        if rng.random() < .3:
            a['envvars'] = {'A': '%(prefix)s', 'B': str(self.n)}
        if rng.random() < .2:
            a['configure_args'] = ['--x=%d' % self.n]
        return a

    def file(self, healthy=None):
        """A file: its record and its text."""
        rng = self.rng
        if healthy is None:
            healthy = rng.random() < .75
        kinds = ['formula']
        broken, there = False, True
        if not healthy:
            bad = rng.choice(['none', 'many', 'broken', 'absent', 'many',
                              'private'])
            kinds = dict(none=[], private=['hidden'],
                         many=['formula'] * rng.choice([2, 2, 3])).get(
                             bad, kinds)
            broken, there = bad == 'broken', bad != 'absent'
        kinds += [rng.choice(['class', 'value', 'hidden', 'function'])
                  for _ in range(rng.choice([0, 0, 1, 2]))]
        rng.shuffle(kinds)
        names = rng.sample(['F', 'G', 'Foo', 'foo', 'File1', 'h', 'zed'],
                           len(kinds))
        imports = rng.choice([
            ['from ipkg.build import Formula, File', 'Formula', 'File'],
            ['import ipkg.build', 'ipkg.build.Formula', 'ipkg.build.File'],
            ['from ipkg.build import *', 'Formula', 'File'],
            ['from ipkg.build import Formula as Base, File', 'Base', 'File'],
            ['from ipkg import build as b', 'b.Formula', 'b.File']])
        tag = 't%d' % self.id()
        text = [imports[0]]
        if broken:
            text.append('import nosuchmodule_of_ipkg')
        text.append('TAG = %r' % tag)
        text.append('def helper():\n    return TAG')
        defs, hidden = [], None
        for kind, name in zip(kinds, names):
            i = self.id()
            d = dict(id=i, kind='formula', pub=True, lacks=False, attrs='')
            if kind in ('formula', 'hidden'):
                if kind == 'hidden':
                    d['pub'] = False
                    name = '_' + name
                a = self.attrs()
                lacks = None
                if rng.random() < .2:
                    lacks = rng.choice(['name', 'version', 'sources',
                                        'revision'])
                    if lacks == 'revision' or rng.random() < .5:
                        a[lacks] = None
                    else:
                        del a[lacks]
                    d['lacks'] = True
                base = imports[1]
                if hidden and rng.random() < .5:
                    # attributes of the helper class are inherited
                    base, more, hlacks = hidden
                    a = dict(more, **a)
                    d['lacks'] = any(a.get(k, 1 if k == 'revision' else None)
                                     is None for k in
                                     ('name', 'version', 'sources',
                                      'revision'))
                if kind == 'hidden':
                    hidden = (name, dict(a), lacks)
                text.append('class %s(%s):' % (name, base))
                for k in sorted(a):
                    text.append('    %s = %s' % (k, a[k] if k != 'sources' or
                                                 a[k] is None else
                                                 imports[2] + '("s")')
                                if k == 'sources' else
                                '    %s = %r' % (k, a[k]))
                text.append('    token = %d' % i)
                text.append('    def tag(self):\n        return %s' %
                            rng.choice(['TAG', 'helper()']))
                d['attrs'] = json.dumps(
                    [[k, str(a[k]) if k == 'revision' else a[k]]
                     for k in ATTRS if k in a], sort_keys=True)
                d['names'] = [k for k in ATTRS if k in a]
            elif kind == 'class':
                d['kind'] = 'class'
                text.append('class %s(object):\n    token = %d' % (name, i))
            else:
                d['kind'] = 'value'
                text.append('%s = %d' % (name, i) if kind == 'value' else
                            'def %s():\n    pass' % name)
            defs.append(d)
        return dict(there=there, broken=broken, defs=defs, tag=tag), \
            '\n'.join(text) + '\n'


def histories(rng, files, ops, loads):
    """Load, then use what was loaded."""
    for i in loads:
        ops.append(dict(op='load', i=i, how=rng.choice(
            ['abs', 'abs', 'rel', 'dots'])))
        if rng.random() < .3:
            ops.append(dict(op='new', i=rng.choice(loads)))
        if rng.random() < .3:
            ops.append(dict(op='use', i=rng.choice(loads)))
    for i in sorted(set(loads)):
        ops.append(dict(op='new', i=i))
        ops.append(dict(op='use', i=i))


def scenario(rng):
    maker = Maker(rng)
    files, ops = [], []
    if rng.random() < .6:
        places = set()
        for _ in range(rng.randint(2, 6)):
            place = rng.choice(DIRS) + '/' + rng.choice(NAMES[:9] if
                                                        rng.random() < .7
                                                        else NAMES)
            if place in places:
                continue
            places.add(place)
            record, text = maker.file()
            files.append(dict(path=place, text=text, f=record))
        loads = [rng.randrange(len(files))
                 for _ in range(rng.randint(2, 2 * len(files) + 1))]
        histories(rng, files, ops, loads)
    # repositories
    for base in ('r', 's')[:rng.choice([0, 1, 2]) if ops else 1]:
        healthy = True if rng.random() < .75 else None
        members = []
        for d in rng.sample(['x', 'y', 'zed', 'x.1'], rng.randint(1, 4)):
            for name in rng.sample(REPO_NAMES, rng.choice([0, 1, 1, 2, 3])):
                record, text = maker.file(healthy)
                if not record['there']:
                    continue
                members.append(len(files))
                files.append(dict(path='%s/%s/%s' % (base, d, name),
                                  text=text, f=record))
            if rng.random() < .4:
                record, text = maker.file()
                files.append(dict(path='%s/%s/%s' % (
                    base, d, rng.choice(DECOYS)), text=text, f=record))
        if not members:
            continue
        if rng.random() < .3:
            record, text = maker.file()
            files.append(dict(path=base + '/' + rng.choice(REPO_NAMES),
                              text=text, f=record))
        if rng.random() < .3:
            record, text = maker.file()
            files.append(dict(path=base + '/deep/er/' +
                              rng.choice(REPO_NAMES), text=text, f=record))
        for _ in range(rng.choice([1, 1, 2])):
            ops.insert(rng.randint(0, len(ops)),
                       dict(op='repo', base=base, members=members))
    return dict(files=files, ops=ops)


def run(ctx):
    ctx.check_model('MC_Load', CFG % ('INVARIANT Good', 'path',
                                      ctx.pick(3, 5), 'FALSE'))
    wrong = ctx.check_model('MC_Load', CFG % (
        'INVARIANT Dump\nCONSTRAINT GoOn', 'name', 3, 'TRUE'), workers=1)
    found = ctx.emitted(wrong)
    rng = ctx.rng('load')
    scenarios = []
    seen = set()
    for w in found:
        key = json.dumps(w, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        maker, files, ops = Maker(rng), [], []
        at = {}
        for x in w['files']:
            path = '%s/%s.py' % (x['dir'], x['name'])
            if path not in at:
                at[path] = len(files)
                i = maker.id()
                a = dict(name='x', version='1')
                files.append(dict(path=path, f=dict(
                    there=True, broken=False, tag='t%d' % i, defs=[dict(
                        id=i, kind='formula', pub=True, lacks=False,
                        names=['name'], attrs='[["name", "x"]]')]),
                    text='from ipkg.build import Formula\nTAG = "t%d"\n'
                    'class %s(Formula):\n    name = "x"\n    version = "1"\n'
                    '    sources = "s"\n    token = %d\n'
                    '    def tag(self):\n        return TAG\n' %
                    (i, x['cls'], i)))
            ops.append(dict(op='load', i=at[path], how='abs'))
        for i in range(len(files)):
            ops += [dict(op='new', i=i), dict(op='use', i=i)]
        scenarios.append(dict(files=files, ops=ops))
    ctx.notes['disturbing_histories_of_the_model'] = len(scenarios)
    if not scenarios:
        from lib import core
        raise core.MachineryError('the model found no disturbing history')
    if not ctx.thorough:
        rng.shuffle(scenarios)
        scenarios = scenarios[:80]
    scenarios += [scenario(rng) for _ in range(ctx.pick(250, 3000))]
    ctx.judge('d_load', 'TraceLoad', scenarios, shards=ctx.pick(4, 8))
