"""Install packages whose files mention the prefix they were built in."""
import json
import os
import stat
from drv import start, attempt, cleanup
from ipkg.environments import Environment
from ipkg.packages import PackageFile

def tool_calls(path, prefix):
    calls = []
    if not os.path.exists(path):
        return calls
    for line in open(path).read().splitlines():
        if line == 'CALL':
            calls.append(dict(args=[], writable=False))
        elif line == 'WRITABLE':
            calls[-1]['writable'] = True
        else:
            calls[-1]['args'].append(line[4:].decode('utf-8'))
    for call in calls:
        args = call.pop('args')
        call['file'] = os.path.relpath(args[-1], prefix)
        call['changes'] = [[args[k + 1], args[k + 2]]
                           for k, a in enumerate(args) if a == '-change']
    return calls


def run(driver, scenario):
    os.environ['HOME'] = driver.dir
    log = os.path.join(driver.dir, 'log')
    os.environ['TOOL_LOG'] = log
    prefix = scenario['prefix']
    os.makedirs(prefix)
    try:
        env = Environment(prefix)
        env.directories.create(fail_if_it_exists=False)
        package = scenario['path'] if scenario['how'] == 'path' else \
            PackageFile(scenario['path'])
        st, why = attempt(env.install, package)
        files = []
        for f in scenario['files']:
            full = os.path.join(prefix, f['path'])
            f = dict(f, there='none', text='', gotmode=0)
            if os.path.islink(full):
                f.update(there='l', text=os.readlink(full))
            elif os.path.isfile(full):
                f.update(there='f', gotmode=stat.S_IMODE(
                    os.stat(full).st_mode))
                os.chmod(full, 0644)
                g = open(full, 'rb')
                f['text'] = g.read().decode('latin-1')
                g.close()
            files.append(f)
        driver.emit(ev='relocate', st=st, why='' if st == 'ok' else str(why),
                    bp=scenario['build'], ip=prefix, files=files,
                    tools=tool_calls(log, prefix))
    finally:
        cleanup(prefix)


start(run)
