"""Files really opened, read and downloaded."""
import hashlib
import json
import os
import shutil
import sys
import urllib
from drv import start, attempt
from crash import Recorder
from snap import tree
from ipkg.build import File
from ipkg.files import vopen

STEP = [i % 251 for i in range(251)]


def content(seed, n):
    """Byte of spec/Fetch.tla, for all offsets."""
    result = []
    for block in range(n // 251 + 1):
        k = (block * 3 + seed * 17)
        result.append(''.join(chr((i + k) % 256) for i in range(251)))
    return ''.join(result)[:n]


def digest(d):
    data = content(d['seed'], d['len'])
    value = getattr(hashlib, d['algo'])(data).hexdigest()
    v = d['variant']
    if v == 'exact':
        return value
    if v == 'start':
        return value[:-1] + ('0' if value[-1] != '0' else '1')
    if v == 'end':
        return ('0' if value[0] != '0' else '1') + value[1:]
    if v == 'short':
        return value[:8]
    if v == 'empty':
        return ''
    if v == 'other':
        other = 'md5' if d['algo'] != 'md5' else 'sha1'
        return getattr(hashlib, other)(data).hexdigest()
    if v == 'half':
        return getattr(hashlib, d['algo'])(data[:len(data) // 2] + 'x') \
            .hexdigest()


class World(object):

    def __init__(self, driver, scenario):
        self.driver = driver
        self.s = scenario
        self.name = 's%d' % driver.i
        self.www = os.path.join(driver.params['www'], self.name)
        os.mkdir(self.www)
        os.chmod(self.www, 0777)
        self.cache = os.path.join(driver.dir, 'cache')
        os.mkdir(self.cache)
        self.objs = {}
        self.on = 'no'
        for u in scenario['urls']:
            if not os.path.isdir(os.path.dirname(self.path(u))):
                os.makedirs(os.path.dirname(self.path(u)))
                os.chmod(os.path.dirname(self.path(u)), 0777)
        self.known = {}     # content -> seed
        self.n = 0

    def url(self, u):
        if u.startswith('dead'):
            return self.driver.params['dead'] + '/' + u
        return '%s/%s/%s' % (self.driver.params['url'], self.name, u)

    def path(self, u):
        base, q, query = u.partition('?')
        return os.path.join(self.www, urllib.unquote(base) + q + query)

    def know(self, seed, n):
        data = content(seed, n)
        self.known[(seed, n)] = data
        return data

    def within(self, data):
        return sorted(set(seed for (seed, n), c in self.known.items()
                          if data in c))

    def serve(self, u, ok, how, seed, n):
        if u.startswith('dead'):
            return
        path = self.path(u)
        data = self.know(seed, n)
        ctl = dict(how)
        if 'redirect' in ctl:
            del ctl['redirect']
            target = 'r%d' % sorted(self.s['urls']).index(u)
            ctl.update(status=302, location='/%s/_r/%s' % (self.name, target))
            where = os.path.join(self.www, '_r')
            if not os.path.isdir(where):
                os.mkdir(where)
                os.chmod(where, 0777)
            self.put(os.path.join(where, target), data)
            data = 'moved'
        if 'loop' in ctl:
            ctl = dict(status=302, location='/%s/%s' % (self.name, u))
        if 'fraction' in ctl:
            ctl['cut'] = min(int(ctl.pop('fraction') * n), n - 1)
        self.put(path, data)
        self.put(path + '.ctl', json.dumps(ctl))

    def put(self, path, data):
        f = open(path + '.tmp', 'wb')
        f.write(data)
        f.close()
        os.rename(path + '.tmp', path)

    def requests(self):
        result = {}
        for parent, dirs, files in os.walk(self.www):
            if '_r' in dirs:
                dirs.remove('_r')
            for name in files:
                if name.endswith('.req'):
                    f = open(os.path.join(parent, name))
                    result[os.path.join(parent, name)[:-4]] = len(
                        f.read().splitlines())
                    f.close()
        return result

    def observe(self, u, function):
        """Call it: outcome, and what happened meanwhile."""
        before, stored = self.requests(), tree(self.cache)
        st, value = attempt(function)
        after = self.requests()
        mine = self.path(u) if u else None
        delta = dict((p, n - before.get(p, 0)) for p, n in after.items())
        now = tree(self.cache)
        event = dict(st=st, req=delta.pop(mine, 0), others=sum(
            delta.values()), stored=len([p for p in now if
                                         now[p] != stored.get(p)]))
        if u and u.startswith('dead') and st != 'ok':
            event['req'] = 1
        if st != 'ok':
            event['why'] = value
        return event, value

    def location(self, loc):
        """Where it is."""
        kind = loc['kind']
        if kind == 'http':
            return str(self.url(loc['u']))
        if kind == 'unknown':
            return str(loc['raw'])
        path = os.path.join(self.driver.dir, loc['name'])
        if loc['exists']:
            if not os.path.isdir(os.path.dirname(path)):
                os.makedirs(os.path.dirname(path))
            self.put(path, self.know(loc['seed'], loc['len']))
        elif loc.get('directory'):
            if not os.path.isdir(path):
                os.makedirs(path)
        elif os.path.exists(path):
            os.unlink(path)
        if kind == 'file':
            return 'file://' + urllib.quote(path)
        if loc.get('relative'):
            os.chdir(self.driver.dir)
            return str(loc['name'])
        return str(path)

    def plain(self, loc):
        return dict(kind=loc['kind'], u=loc.get('u', ''), exists=loc.get(
            'exists', False), c=dict(seed=loc.get('seed', 0),
                                     len=loc.get('len', 0)))

    def step(self, op):
        what = op['ev']
        emit = self.driver.emit
        if what == 'srv':
            self.serve(op['u'], op['ok'], op['how'], op['seed'], op['len'])
            emit(ev='srv', u=op['u'], ok=op['ok'], seed=op['seed'],
                 len=op['len'])
            return
        if what == 'cache':
            os.chmod(self.cache, 0755)
            os.environ.pop('IPKG_CACHE_DIR', None)
            if op['how'] == 'yes':
                os.environ['IPKG_CACHE_DIR'] = self.cache
            elif op['how'] == 'readonly':
                os.chmod(self.cache, 0555)
                os.environ['IPKG_CACHE_DIR'] = self.cache
            elif op['how'] == 'missing':
                os.environ['IPKG_CACHE_DIR'] = self.cache + '/missing'
            elif op['how'] == 'empty':
                os.environ['IPKG_CACHE_DIR'] = ''
            self.on = op['how']
            emit(ev='cache', on=op['how'] if op['how'] in (
                'yes', 'readonly') else 'no')
            return
        if what in ('open', 'fopen'):
            loc = op['loc']
            given = self.location(loc)
            u = loc.get('u')
            d = op.get('d')
            if what == 'open':
                kw = {}
                if d and d['variant'] != 'none':
                    self.know(d['seed'], d['len'])
                    kw = dict(expected_hash=digest(d),
                              hash_class=getattr(hashlib, d['algo']))
                event, value = self.observe(u, lambda: vopen(given, **kw))
                self.objs.pop(op['o'], None)
                if event['st'] == 'ok':
                    self.objs[op['o']] = (value, u, d)
                emit(ev='open', o=op['o'], loc=self.plain(loc), **event)
            else:
                kw = {}
                if d['variant'] != 'none':
                    self.know(d['seed'], d['len'])
                    kw[str(d['algo'])] = digest(d)
                event, value = self.observe(
                    u, lambda: File(given, **kw).open())
                self.objs.pop(op['o'], None)
                if event['st'] == 'ok':
                    self.objs[op['o']] = (value, u, d)
                emit(ev='fopen', o=op['o'], loc=self.plain(loc), d=d, **event)
            os.chdir(self.driver.work)
            return
        if op['o'] not in self.objs:
            return
        obj, u, d = self.objs[op['o']]
        if what == 'read':
            n = op['n']
            function = (lambda: obj.read()) if op['n'] is None else \
                (lambda: obj.read(n))
            if op.get('crash') and self.on == 'yes' and u:
                event, value = self.crash(u, function)
            else:
                event, value = self.observe(u, function)
            emit(ev='read', o=op['o'], n=-1 if n is None else n,
                 **dict(event, **self.describe(value if event['st'] == 'ok'
                                               else '')))
        elif what == 'seek':
            args = (op['off'],) if not op['explicit'] else (
                op['off'], op['wh'])
            event, value = self.observe(u, lambda: obj.seek(*args))
            emit(ev='seek', o=op['o'], off=op['off'], wh=op['wh'], **event)
        elif what == 'tell':
            event, value = self.observe(u, lambda: obj.tell())
            emit(ev='tell', o=op['o'], pos=int(value) if event['st'] == 'ok'
                 else -1, **event)
        elif what == 'verify':
            event, value = self.observe(u, lambda: obj.verify_checksum())
            emit(ev='verify', o=op['o'], d=d or dict(
                variant='none', seed=0, len=0), **event)

    def describe(self, data):
        if not isinstance(data, str):
            return dict(got=-2, head=[], tail=[], within=[])
        n = len(data)
        h = min(n, 16)
        return dict(got=n, head=map(ord, data[:h]), tail=map(
            ord, data[n - h:]), within=self.within(data) if n > 32 else [])

    def crash(self, u, function):
        """What is found if the process dies meanwhile."""
        self.n += 1
        aside = os.path.join(self.driver.dir, 'aside%d' % self.n)
        recorder = Recorder(self.cache, aside)

        def recorded():
            with recorder:
                return function()
        event, value = self.observe(u, recorded)
        if event['st'] != 'ok':
            return event, value
        for state, copy, what in recorder.points:
            os.environ['IPKG_CACHE_DIR'] = copy
            st, data = attempt(lambda: vopen(self.url(u)).read())
            n = self.requests()
            st2, data2 = attempt(lambda: vopen(self.url(u)).read())
            again = 'ok'
            if st == 'ok' and (st2, data2) != (st, data):
                again = 'different'
            elif self.requests() != n:
                again = 'downloaded'
            self.driver.emit(ev='point', u=u, st=st, again=again, at=what,
                             **self.describe(data if st == 'ok' else ''))
            os.environ['IPKG_CACHE_DIR'] = self.cache
        shutil.rmtree(aside)
        # what these readers asked is not what was observed
        return event, value


def run(driver, scenario):
    os.chdir(driver.work)
    os.environ.pop('IPKG_CACHE_DIR', None)
    world = World(driver, scenario)
    srv = dict((u, dict(ok=False, c=dict(seed=0, len=0)))
               for u in scenario['urls'])
    driver.emit(ev='init', srv=srv)
    for op in scenario['ops']:
        world.step(op)
    os.environ.pop('IPKG_CACHE_DIR', None)
    os.chmod(world.cache, 0755)
    shutil.rmtree(world.www, True)


start(run)
