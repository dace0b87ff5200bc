"""Histories of dictionaries stored in a file."""
import json
import os
import shutil
from drv import start, attempt
from crash import Recorder
from ipkg.utils import DictFile


class Unfit(object):
    """It cannot be stored."""


def decode(value):
    """JSON value of a scenario -> value to store."""
    if isinstance(value, dict):
        if '@unfit' in value:
            return {'object': Unfit(), 'set': set([1]),
                    'bytes': '\xff\xfe', 'complex': 1j}[value['@unfit']]
        if '@bytes' in value:
            return value['@bytes'].encode('utf-8')
        return dict((k, decode(v)) for k, v in value.items())
    if isinstance(value, list):
        return map(decode, value)
    return value


def key(value):
    """The same for the keys."""
    return {'@tuple': ('a', 1), '@frozen': frozenset('b'),
            '@nested': ((), )}.get(value, value)


def token(value):
    try:
        return json.dumps(value, sort_keys=True, default=lambda v: '\0unfit')
    except (TypeError, ValueError, UnicodeDecodeError):
        return 'unfit'


def content(d):
    return dict((k if isinstance(k, basestring) else repr(k), token(v))
                for k, v in d.items())


def kind(path):
    """The file, read without the code."""
    result = dict(k='absent', c={})
    if os.path.isdir(path):
        return dict(k='bad', c={})
    if not os.path.exists(path):
        return result
    f = open(path)
    try:
        text = f.read()
    finally:
        f.close()
    if not text:
        return dict(k='empty', c={})
    try:
        value = json.loads(text)
    except ValueError:
        return dict(k='bad', c={})
    if not isinstance(value, dict):
        return dict(k='bad', c={})
    return dict(k='good', c=content(value))


class World(object):

    def __init__(self, driver, scenario):
        self.driver = driver
        if scenario['remote']:
            self.dir = os.path.join(driver.params['www'], 's%d' % driver.i)
            os.mkdir(self.dir)
        else:
            self.dir = os.path.join(driver.dir, 'here')
            os.mkdir(self.dir)
        self.path = os.path.join(self.dir, scenario['name'])
        self.given = self.path
        if scenario['remote']:
            self.given = '%s/s%d/%s' % (driver.params['url'], driver.i,
                                        scenario['name'])
        elif scenario['relative']:
            os.chdir(self.dir)
            self.given = scenario['name']
        self.objs = {}
        self.n = 0

    def state(self):
        return dict(file=kind(self.path), objs=dict(
            (n, content(o)) for n, o in self.objs.items()))

    def write(self, f):
        if os.path.exists(self.path):
            os.unlink(self.path)
        if f['k'] == 'absent':
            return
        out = open(self.path, 'w')
        if f['k'] == 'good':
            out.write(json.dumps(f['c'], indent=f.get('indent')))
        elif f['k'] == 'bad':
            out.write(f['raw'].encode('utf-8'))
        out.close()

    def do(self, op):
        name = op.get('o')
        obj = self.objs.get(name)
        if op['op'] == 'new':
            st, value = attempt(DictFile, self.given)
            if st == 'ok':
                self.objs[name] = value
            return st
        if op['op'] == 'reload':
            return attempt(obj.reload)[0]
        if op['op'] == 'save':
            return attempt(obj.save)[0]
        if op['op'] == 'clear':
            return attempt(obj.clear)[0]

    def step(self, op):
        what = op['op']
        if what == 'write':
            self.write(op['f'])
            self.driver.emit(ev='set', s=self.state())
            return
        if what == 'set':
            value = decode(op['v'])
            obj = self.objs.get(op['o'])
            if obj is not None:
                obj[key(op['x'])] = value
            self.driver.emit(ev='set', s=self.state())
            return
        if what == 'del':
            obj = self.objs.get(op['o'])
            if obj is not None:
                obj.pop(key(op['x']), None)
            self.driver.emit(ev='set', s=self.state())
            return
        if what != 'new' and op['o'] not in self.objs:
            return
        event = dict(ev=what, o=op['o'], remote='://' in self.given)
        if what == 'save':
            def fit(v):
                try:
                    json.dumps(v)
                    return True
                except (TypeError, ValueError):
                    return False
            event['fit'] = fit(dict(self.objs[op['o']]))
        if op.get('crash') and what in ('save', 'clear'):
            event['st'] = self.crash(op)
        elif op.get('fault') is not None and what == 'save':
            self.fault(op)
            return
        else:
            event['st'] = self.do(op)
        self.driver.emit(s=self.state(), **event)

    def crash(self, op):
        self.n += 1
        aside = os.path.join(self.driver.dir, 'aside%d' % self.n)
        target = content(self.objs[op['o']]) if op['op'] == 'save' else {}
        recorder = Recorder(self.dir, aside)
        with recorder:
            st = self.do(op)
        for state, copy, what in recorder.points:
            path = os.path.join(copy, os.path.basename(self.path))
            f = kind(path)
            # what another process makes of it
            opened, d = attempt(DictFile, path)
            got = content(d) if opened == 'ok' else {}
            again = 'ok'
            if opened == 'ok':
                d['again'] = 1
                again = attempt(d.save)[0]
                if again == 'ok' and kind(path) != dict(
                        k='good', c=content(d)):
                    again = 'lost'
            self.driver.emit(ev='point', o=op['o'], op=op['op'], f=f,
                             opened=opened, got=got, again=again, at=what)
        shutil.rmtree(aside)
        return st

    def fault(self, op):
        """The saving fails at some point."""
        fault = op['fault']
        aside = os.path.join(self.driver.dir, 'aside')
        obj = self.objs[op['o']]
        import ipkg.utils
        if fault == 'directory':
            os.chmod(self.dir, 0555)
            st = attempt(obj.save)[0]
            os.chmod(self.dir, 0755)
        elif fault == 'rename':
            saved = os.rename

            def fail(*args):
                raise OSError(28, 'No space left on device')
            os.rename = fail
            try:
                st = attempt(obj.save)[0]
            finally:
                os.rename = saved
        else:
            with Recorder(self.dir, aside, copy=False, faulty=fault):
                st = attempt(obj.save)[0]
        self.driver.emit(ev='fault', o=op['o'], st=st, f=kind(self.path),
                         s=self.state(), at=str(fault))


def run(driver, scenario):
    os.chdir(driver.work)
    world = World(driver, scenario)
    driver.emit(ev='init', s=world.state())
    for op in scenario['ops']:
        world.step(op)
    os.chdir(driver.work)


start(run)
