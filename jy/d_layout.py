"""Histories of the directories of an environment."""
import hashlib
import os
import shutil
import stat
from drv import start, attempt, cleanup
from crash import Recorder
from ipkg.environments import Environment


def tree(base, top):
    """Path, from base -> what is there."""
    result = {}
    todo = [top]
    while todo:
        path = todo.pop()
        full = os.path.join(base, path)
        try:
            mode = os.lstat(full).st_mode
        except OSError:
            continue
        if stat.S_ISLNK(mode):
            result[path] = 'l:' + os.readlink(full)
        elif stat.S_ISDIR(mode):
            result[path] = 'd'
            todo.extend(os.path.join(path, n) for n in os.listdir(full))
        else:
            f = open(full, 'rb')
            result[path] = 'f:' + hashlib.sha1(f.read()).hexdigest()[:10]
            f.close()
    return result


class World(object):

    def __init__(self, driver, scenario):
        self.driver = driver
        self.base = driver.dir
        os.mkdir(os.path.join(self.base, 'w'))
        self.pre = scenario['prefix']
        self.relative = scenario['relative']
        self.env = None

    def path(self, p):
        return os.path.join(self.base, p)

    def state(self, base=None):
        return dict(tree=tree(base or self.base, 'w'), pre=self.pre)

    def environment(self, base=None):
        if self.env is None or base:
            prefix = os.path.join(base or self.base, self.pre)
            if self.relative and not base:
                os.chdir(self.base)
                prefix = self.pre
            env = Environment(prefix)
            if base:
                return env
            self.env = env
        return self.env

    def parent(self, base=None):
        return os.path.isdir(os.path.dirname(
            os.path.join(base or self.base, self.pre)))

    def create(self, tol, base=None):
        # how a caller says it
        env = self.environment(base)
        if tol:
            return attempt(env.directories.create, False)[0]
        return attempt(env.directories.create)[0]

    def step(self, op):
        what = op['op']
        emit = self.driver.emit
        if what == 'user':
            self.user(op)
            emit(ev='user', s=self.state())
        elif what == 'gone':
            full = self.path(op['p'])
            if os.path.islink(full) or os.path.isfile(full):
                os.unlink(full)
            elif os.path.isdir(full):
                shutil.rmtree(full)
            emit(ev='user', s=self.state())
        elif what == 'names':
            dirs = dict(self.environment().directories)
            emit(ev='names', dirs=dict(
                (k, os.path.relpath(v, os.path.realpath(self.base)))
                for k, v in dirs.items()))
        elif what == 'reopen':
            self.env = None
        elif what == 'create':
            self.died(op, lambda: self.create(op['tol']), parent=self.parent(),
                      tol=op['tol'])
        elif what == 'clean':
            tmp = self.pre + '/tmp/'
            inside = [p for p in self.state()['tree'] if p.startswith(tmp)]
            env = self.environment()
            self.died(op, lambda: attempt(env.cleanup_tmpdir)[0],
                      inside=inside)
        elif what == 'temp':
            self.temp(op)

    def temp(self, op):
        name = op.get('prefix')
        env = self.environment()
        if name is None:
            st, path = attempt(env.mktmpdir)
        elif op.get('keyword'):
            st, path = attempt(env.mktmpdir, prefix=name)
        else:
            st, path = attempt(env.mktmpdir, name)
        event = dict(path='', starts=True, below=False, private=False)
        if st == 'ok':
            full = os.path.abspath(path)
            event['path'] = os.path.relpath(full, os.path.realpath(self.base))
            event['starts'] = os.path.basename(full).startswith(name or '')
            event['below'] = os.path.dirname(full) == \
                os.path.join(os.path.realpath(self.base), self.pre, 'tmp')
            event['private'] = os.path.isdir(full) and \
                stat.S_IMODE(os.lstat(full).st_mode) == 0700
        self.driver.emit(ev='temp', st=st, s=self.state(), **event)

    def died(self, op, action, **more):
        if not op.get('crash'):
            st = action()
            self.driver.emit(ev=op['op'], st=st, s=self.state(), **more)
            return
        self.environment()
        aside = os.path.join(self.base, 'aside')
        os.mkdir(aside)
        recorder = Recorder(os.path.join(self.base, 'w'), aside)
        with recorder:
            st = action()
        for _, copy, at in recorder.points:
            base = copy + '-w'
            os.mkdir(base)
            os.rename(copy, os.path.join(base, 'w'))
            before = self.state(base)
            done = self.create(True, base)
            self.driver.emit(
                ev='point', op=op['op'], s=before, at=at, done=done,
                parent=self.parent(base), then=self.state(base),
                inside=more.get('inside', []))
        cleanup(aside)
        self.driver.emit(ev=op['op'], st=st, s=self.state(), **more)

    def user(self, op):
        full = self.path(op['p'])
        if os.path.lexists(full) or not os.path.isdir(os.path.dirname(full)):
            return
        if op['x'] == 'd':
            os.mkdir(full)
        elif op['x'].startswith('l:'):
            os.symlink(op['x'][2:], full)
        else:
            f = open(full, 'w')
            f.write(op['x'])
            f.close()
            if op.get('mode'):
                os.chmod(full, op['mode'])


def run(driver, scenario):
    os.chdir(driver.work)
    world = World(driver, scenario)
    driver.emit(ev='init', s=world.state())
    for op in scenario['ops']:
        world.step(op)
    os.chdir(driver.work)


start(run)
