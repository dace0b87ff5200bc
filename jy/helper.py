"""The commands of lib/helper.c: telling them what to do, and what they saw."""
import hashlib
import os


def unhex(text):
    return text.decode('hex')


def make(binary, path, reads=0, out=0, err=0, status=0, signal=0):
    """``path`` becomes a command which does this."""
    if not os.path.exists(path):
        os.link(binary, path)
    tell(path, reads, out, err, status, signal)


def tell(path, reads=0, out=0, err=0, status=0, signal=0):
    f = open(path + '.ctl', 'w')
    f.write('%d %d %d %d %d\n' % (reads, out, err, status, signal))
    f.close()
    if os.path.exists(path + '.rep'):
        os.unlink(path + '.rep')


def reports(path):
    """What the runs of this command saw."""
    return read(path + '.rep')


def read(path):
    result = []
    if not os.path.exists(path):
        return result
    f = open(path)
    now = dict(args=[], cwd='', env={}, input=None)
    for line in f.read().splitlines():
        kind, value = line[0], line[1:]
        if kind == 'A':
            now['args'].append(unhex(value))
        elif kind == 'C':
            now['cwd'] = unhex(value)
        elif kind == 'E':
            name, _, text = unhex(value).partition('=')
            now['env'][name] = text
        elif kind == 'I':
            now['input'] = unhex(value)
        else:
            result.append(now)
            now = dict(args=[], cwd='', env={}, input=None)
    f.close()
    return result


def text(data):
    """A short value standing for these bytes."""
    if data is None:
        return 'none'
    return '%d:%s' % (len(data), hashlib.sha1(data).hexdigest()[:12])


def pattern(base, n):
    """What the command writes."""
    return ''.join('\n' if i % 61 == 60 else chr(ord(base) + i % 23)
                   for i in xrange(n))
