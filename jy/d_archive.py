"""Archives really unpacked."""
import hashlib
import os
import shutil
import stat
from drv import start, attempt
from ipkg.build import File
from ipkg.files import vopen
from ipkg.utils import unarchive


def items(base, path=()):
    result = []
    here = os.path.join(base, *path)
    for name in sorted(os.listdir(here)):
        p = path + (name,)
        full = os.path.join(here, name)
        st = os.lstat(full)
        item = dict(path=list(p), mode='%o' % stat.S_IMODE(st.st_mode), c='')
        if stat.S_ISLNK(st.st_mode):
            item.update(k='l', c=os.readlink(full))
        elif stat.S_ISDIR(st.st_mode):
            item['k'] = 'd'
        else:
            item['k'] = 'f'
            f = open(full, 'rb')
            data = f.read()
            f.close()
            item['c'] = '%d:%s' % (len(data),
                                   hashlib.sha1(data).hexdigest()[:10])
        result.append(item)
        if item['k'] == 'd':
            result += items(base, p)
    return result


def run(driver, scenario):
    os.chdir(driver.work)
    target = os.path.join(driver.dir, scenario['target'])
    os.makedirs(target)
    for name in scenario['old']:
        p = os.path.join(target, name)
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        f = open(p, 'w')
        f.write('old')
        f.close()
    path = os.path.join(driver.dir, scenario['name'])
    shutil.copy(scenario['path'], path)
    old = items(target)
    how = scenario['how']
    if how == 'open':
        f = open(path, 'rb')
    elif how == 'vopen':
        f = vopen(path)
    elif how == 'url':
        f = vopen('file://' + path)
    elif how == 'http':
        f = vopen('%s/%s' % (driver.params['url'], os.path.basename(
            scenario['path'])))
    else:
        f = File(path, sha256=hashlib.sha256(
            open(path, 'rb').read()).hexdigest()).open()
    given = target
    if scenario['relative']:
        os.chdir(driver.dir)
        given = scenario['target']
    saved = os.environ['PATH']
    if scenario['noxz']:
        # the tool it needs is not there
        os.environ['PATH'] = driver.dir
    st, value = attempt(unarchive, f, given)
    os.environ['PATH'] = saved
    os.chdir(driver.work)
    event = dict(ev='unpack', st=st, old=old, items=items(target),
                 returned=[], why='' if st == 'ok' else value)
    if st == 'ok':
        full = os.path.join(driver.dir, value)
        rel = os.path.relpath(full, target)
        event['returned'] = [rel] if os.path.isabs(value) or \
            scenario['relative'] else ['?']
    event.update(a=scenario['a'], format=scenario['format'],
                 whole=scenario['whole'])
    driver.emit(**event)


start(run)
