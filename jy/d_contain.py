"""Hostile packages, archives and records."""
import os
import stat
from drv import start, attempt, cleanup
from snap import token
from ipkg.environments import Environment
from ipkg.packages import PackageFile
from ipkg.utils import unarchive

OLD = 1000000000


def outside(base):
    result = {}
    todo = ['']
    while todo:
        rel = todo.pop()
        try:
            names = os.listdir(os.path.join(base, rel))
        except OSError:
            result[rel] += ' closed'
            continue
        for name in names:
            path = os.path.join(rel, name)
            if path in ('P', 'in'):
                continue
            full = os.path.join(base, path)
            try:
                st = os.lstat(full)
            except OSError:
                result[path] = 'unreachable'
                continue
            if os.path.isdir(full) and not os.path.islink(full):
                result[path] = 'd:%o:%d' % (stat.S_IMODE(st.st_mode),
                                            st.st_mtime)
                todo.append(path)
            elif os.path.islink(full):
                result[path] = token(full)
            else:
                result[path] = '%s:%d:%d' % (token(full), st.st_mtime,
                                             st.st_nlink)
    return result


def layout(scenario):
    base = scenario['base']
    o = scenario['out']
    for d, mode in (('P', 0755), (o, 0711), (o + '/e', 0750)):
        os.mkdir(os.path.join(base, d))
        os.chmod(os.path.join(base, d), mode)
    for path in (o + '/s', o + '/e/s', o + '/lib', 'top'):
        f = open(os.path.join(base, path), 'w')
        f.write('#!/build/p/env/bin/x\nprecious\n')
        f.close()
        os.chmod(os.path.join(base, path), 0640)
    for path in (o + '/s', o + '/e/s', o + '/lib', 'top', o + '/e', o):
        os.utime(os.path.join(base, path), (OLD, OLD))
    prefix = os.path.join(base, 'P')
    for name, target in scenario['links'].items():
        os.symlink(target, os.path.join(prefix, name))
    return prefix


def operate(env, prefix, op):
    if op['ev'] == 'install':
        return attempt(env.install, PackageFile(op['path'])
                       if op['how'] == 'obj' else op['path'])
    if op['ev'] == 'extract':
        return attempt(PackageFile(op['path']).extract, prefix)
    if op['ev'] == 'unarchive':
        def go():
            f = open(op['path'], 'rb')
            try:
                unarchive(f, prefix)
            finally:
                f.close()
        return attempt(go)
    if op['ev'] == 'uninstall':
        if op.get('record'):
            # what the records say
            env.meta['packages'][op['record']['name']] = op['record']
            env.meta.save()
        return attempt(env.uninstall, op['n'])


def run(driver, scenario):
    base = scenario['base']
    os.chdir(driver.dir)
    prefix = layout(scenario)
    try:
        env = Environment(prefix)
        for op in scenario['ops']:
            before = outside(base)
            st, why = operate(env, prefix, op)
            driver.emit(ev=op['ev'], st=st, why=str(why)[:100],
                        before=before, after=outside(base))
    finally:
        for d in ('P', scenario['out']):
            cleanup(os.path.join(base, d))


start(run)
