"""What is in a directory, as spec/Env.tla describes it."""
import os
import stat
import hashlib


def token(path, prefixes=()):
    st = os.lstat(path)
    if stat.S_ISLNK(st.st_mode):
        return 'l:' + os.readlink(path)
    if stat.S_ISREG(st.st_mode):
        f = open(path, 'rb')
        try:
            data = f.read()
        finally:
            f.close()
        for prefix in prefixes:
            data = data.replace(prefix, '@P')
        return 'f:%o:%s' % (stat.S_IMODE(st.st_mode),
                            hashlib.sha1(data).hexdigest()[:10])
    return 'o:%o' % st.st_mode


def tree(base, skip=('.ipkg.meta',), dirs=False, prefixes=()):
    """Path -> what is there, directories left out."""
    result = {}
    if not os.path.isdir(base):
        return result
    todo = ['']
    while todo:
        rel = todo.pop()
        try:
            names = os.listdir(os.path.join(base, rel))
        except OSError:
            result[rel] = 'unreadable'
            continue
        for name in names:
            path = os.path.join(rel, name)
            full = os.path.join(base, path)
            if rel == '' and name.startswith(skip):
                continue
            if os.path.isdir(full) and not os.path.islink(full):
                if dirs:
                    result[path] = 'd:%o' % stat.S_IMODE(
                        os.lstat(full).st_mode)
                todo.append(path)
            else:
                try:
                    result[path] = token(full, prefixes)
                except (OSError, IOError):
                    result[path] = 'unreadable'
    return result
