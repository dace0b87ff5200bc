"""The states in which a directory is found if the process dies.

While a Recorder is active, the directory is looked at after each line the
code under test executes, and around each primitive which changes files; every
new state is copied aside.
"""
import __builtin__
import os
import sys
import shutil
import threading
from snap import tree

REPO = os.path.realpath(os.path.dirname(
    __import__('ipkg', {}, {}, ['x']).__file__))
PRIMITIVES = ('rename', 'remove', 'unlink', 'mkdir', 'rmdir', 'chmod',
              'symlink', 'link', 'makedirs', 'removedirs', 'renames', 'utime',
              'write', 'close', 'open', 'ftruncate', 'lchmod', 'fchmod')


class Proxy(object):
    """A file being written."""

    def __init__(self, fileobj, recorder):
        self.__dict__['_f'] = fileobj
        self.__dict__['_r'] = recorder

    def __getattr__(self, name):
        value = getattr(self._f, name)
        if name in ('write', 'writelines', 'flush', 'close', 'truncate'):
            def call(*args):
                self._r.look(name)
                try:
                    self._r.fault(name)
                    return value(*args)
                finally:
                    self._r.look(name)
            return call
        return value

    def __setattr__(self, name, value):
        setattr(self._f, name, value)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __iter__(self):
        return iter(self._f)


class Recorder(object):

    def __init__(self, watch, aside, copy=True, limit=200, faulty=None):
        self.watch = watch
        self.aside = aside
        self.copy = copy
        self.limit = limit
        self.points = []        # (tree, directory of the copy, what)
        self.faulty = faulty    # number of the write which fails
        self.writes = 0
        self.busy = False
        self.seen = {}

    def fault(self, what):
        if what in ('write', 'writelines'):
            self.writes += 1
            if self.faulty is not None and self.writes >= self.faulty:
                raise IOError(28, 'No space left on device')

    def look(self, what=''):
        if self.busy or self.thread is not threading.currentThread():
            return
        self.busy = True
        try:
            now = tree(self.watch, skip=('\0',), dirs=True)
            if now != self.last:
                self.last = now
                key = tuple(sorted(now.items()))
                if key in self.seen or len(self.points) >= self.limit:
                    return
                self.seen[key] = True
                path = None
                if self.copy:
                    path = os.path.join(self.aside, 'c%d' % len(self.points))
                    self.copytree(self.watch, path, symlinks=True)
                self.points.append((now, path, what))
        finally:
            self.busy = False

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(REPO):
            return None
        self.look('%s:%d' % (os.path.basename(name), frame.f_lineno))
        return self.trace

    def __enter__(self):
        if not os.path.isdir(self.aside):
            os.makedirs(self.aside)
        self.thread = threading.currentThread()
        self.copytree = shutil.copytree
        self.last = None
        self.look('start')
        self.saved = [(os, n, getattr(os, n)) for n in PRIMITIVES
                      if hasattr(os, n)]
        for holder, name, function in list(self.saved):
            setattr(holder, name, self.wrap(name, function))
        opener = __builtin__.open

        def wrapped(path, mode='r', *args, **kw):
            self.look('open')
            f = opener(path, mode, *args, **kw)
            if mode[:1] in 'wax' or '+' in mode:
                full = os.path.abspath(path) if isinstance(
                    path, basestring) else ''
                if full.startswith(self.watch) and not self.busy:
                    self.look('open')
                    return Proxy(f, self)
            return f
        import tarfile
        for holder, name in ((__builtin__, 'open'), (__builtin__, 'file'),
                             (tarfile, 'bltn_open')):
            if name != 'file' and hasattr(holder, name):
                self.saved.append((holder, name, getattr(holder, name)))
                setattr(holder, name, wrapped)
        sys.settrace(self.trace)
        return self

    def wrap(self, name, function):
        def call(*args, **kw):
            if self.busy:
                return function(*args, **kw)
            self.look(name)
            try:
                return function(*args, **kw)
            finally:
                self.look(name)
        return call

    def __exit__(self, *args):
        sys.settrace(None)
        for holder, name, function in self.saved:
            setattr(holder, name, function)
        self.look('end')
        return False
