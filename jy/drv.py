"""Common part of the drivers (Python 2, run by Jython).

A driver reads scenarios, runs each of them against the real code, and writes
what it observed, one JSON value a line.  It never judges.
"""
import bz2
import json
import os
import sys
import shutil
import logging

logging.getLogger().addHandler(logging.StreamHandler(open(os.devnull, 'w')))
logging.getLogger().setLevel(logging.CRITICAL)


class BZ2Decompressor(object):
    """Jython's own yields nothing for some (one in 300) valid streams."""

    def __init__(self):
        self.data = []
        self.given = 0

    def decompress(self, data):
        from java.io import ByteArrayInputStream, IOException
        from org.apache.commons.compress.compressors.bzip2 import \
            BZip2CompressorInputStream
        import jarray
        self.data.append(data)
        data = ''.join(self.data)
        if not 'BZh'.startswith(data[:3]) or data[3:4] not in '123456789':
            raise IOError('invalid data stream')
        result = []
        try:
            stream = BZip2CompressorInputStream(ByteArrayInputStream(
                to_bytes(data)))
            chunk = jarray.zeros(65536, 'b')
            while True:
                n = stream.read(chunk, 0, 65536)
                if n < 0:
                    break
                result.append(chunk[:n].tostring())
        except IOException:
            pass
        result = ''.join(result)
        given, self.given = self.given, len(result)
        return result[given:]


def to_bytes(data):
    import array
    return array.array('b', data)


bz2.BZ2Decompressor = BZ2Decompressor


class Driver(object):

    def __init__(self, run):
        with open(sys.argv[1]) as f:
            data = json.load(f)
        self.params = data['params']
        self.work = data['work']
        self.todo = data['todo']
        self.fd = os.open(sys.argv[2], os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                          0644)
        self.run = run
        self.i = None

    def emit(self, **event):
        os.write(self.fd, json.dumps(event) + '\n')

    def main(self):
        for i, scenario in self.todo:
            self.i = i
            self.emit(ev='#begin', i=i)
            self.dir = os.path.join(self.work, 's%d' % i)
            os.mkdir(self.dir)
            self.run(self, scenario)
            self.emit(ev='#end')
            cleanup(self.dir)
        self.emit(ev='#done')
        # do not wait for threads of the code under test
        sys.stdout.flush()
        os._exit(0)


def cleanup(path):
    for parent, dirs, files in os.walk(path):
        for d in dirs:
            p = os.path.join(parent, d)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0755)
                except OSError:
                    pass
    shutil.rmtree(path, True)


def attempt(func, *args, **kw):
    """Call ``func``: ('ok', value), ('ipkg', text) or ('other', text)."""
    from ipkg.exceptions import IpkgException
    try:
        return 'ok', func(*args, **kw)
    except IpkgException as exc:
        return shown(exc)
    except KeyboardInterrupt:
        raise
    except SystemExit as exc:
        return 'exit', str(exc.code)
    except:
        # Java throwables included
        kind, exc = sys.exc_info()[:2]
        return 'other', '%s: %s' % (getattr(kind, '__name__', kind),
                                    describe(exc))


def shown(exc):
    """An error of ipkg, which has to be shown to the user."""
    try:
        text = '%s' % exc
    except Exception as why:
        return 'other', '%s cannot be shown: %s' % (type(exc).__name__,
                                                    describe(why))
    if not isinstance(text, basestring):
        return 'other', '%s is shown as nothing' % type(exc).__name__
    return 'ipkg', type(exc).__name__


def describe(exc):
    try:
        return repr(exc)[:200]
    except BaseException:
        return '?'


def start(run):
    Driver(run).main()
