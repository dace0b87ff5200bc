"""Variables of real environments."""
import os
import subprocess
from drv import start, attempt
from ipkg.environments import Environment, PathListVariable, \
    EnvironmentDirectories, EnvironmentVariables

LISTS = ('PATH', 'MANPATH', 'PKG_CONFIG_PATH', 'C_INCLUDE_PATH',
         'LD_LIBRARY_PATH')


def split(variables):
    lists = dict((k, v.split(':')) for k, v in variables.items()
                 if k in LISTS)
    return lists, dict((k, v) for k, v in variables.items()
                       if k not in LISTS)


def enter(driver, scenario, op):
    """Open an environment where these variables are inherited."""
    if op.get('nested'):
        inherited = driver.last
    else:
        inherited = dict((k, v.replace('@D', driver.dir).encode('utf-8'))
                         for k, v in op['inherited'].items())
    prefix = os.path.join(driver.dir, op['prefix'])
    if not os.path.isdir(os.path.join(prefix, 'tmp')):
        os.makedirs(os.path.join(prefix, 'tmp'))
    saved = dict(os.environ)
    inlists, rest = split(inherited)
    event = dict(ev='enter', prefix=prefix, inherited=rest, inlists=inlists)
    os.environ.clear()
    os.environ.update(inherited)
    try:
        given = prefix
        if op['how'] == 'relative':
            os.chdir(driver.dir)
            given = op['prefix']
        elif op['how'] == 'slash':
            given = prefix + '/'

        def make():
            if op['how'] == 'dict':
                directories = EnvironmentDirectories(prefix)
                return Environment(prefix, directories, EnvironmentVariables(
                    directories, dict(inherited)))
            return Environment(given)
        st, env = attempt(make)
        event.update(st=st, why='' if st == 'ok' else env)
        if st == 'ok':
            variables = env.variables.as_string_dict()
            driver.last = dict(variables)
            lists, rest = split(variables)
            short = os.path.basename(os.path.realpath(prefix))
            event.update(lists=lists, vars=rest,
                         named=short in variables.get('PS1', ''))
            # not one of the environment
            os.environ['STRAY'] = 'stray'
            st, out = attempt(env.execute, ['/usr/bin/env', '-0'],
                              stdin=None, stdout=subprocess.PIPE)
            event.update(ran=st, seen={}, seenlists={})
            if st == 'ok':
                seen = dict(item.split('=', 1)
                            for item in out[0].split('\0') if item)
                event['seenlists'], event['seen'] = split(seen)
            else:
                event['why'] = out
    finally:
        os.environ.clear()
        os.environ.update(saved)
    os.chdir(driver.work)
    driver.emit(**event)


def edit(driver, scenario, op):
    if op['op'] == 'new':
        value = ':'.join(op['start']) if op['start'] else None
        driver.variable = PathListVariable('X', value)
        st = 'ok'
    elif op['op'] == 'insert':
        st, _ = attempt(driver.variable.insert, op['x'], op['i']) \
            if op['i'] or op['explicit'] else \
            attempt(driver.variable.insert, op['x'])
    else:
        st, _ = attempt(getattr(driver.variable, op['op']), op['x'])
    text = str(driver.variable)
    driver.emit(ev='edit', st=st, got=text.split(':') if text else [], **op)


def run(driver, scenario):
    os.chdir(driver.work)
    driver.last = {}
    for op in scenario['ops']:
        (enter if scenario['what'] == 'enter' else edit)(driver, scenario, op)


start(run)
