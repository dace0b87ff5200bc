"""Commands really run."""
import os
import subprocess
import sys
from drv import start, describe
import helper
from ipkg.exceptions import IpkgException
from ipkg.environments import Environment
from ipkg.utils import execute


def run(driver, scenario):
    os.chdir(driver.work)
    binary = driver.params['helper']
    name = 'h%d' % driver.i
    base = os.path.join(driver.dir, scenario.get('in', 'd'))
    if not os.path.isdir(base):
        os.makedirs(base)
    how = scenario['find']
    if how == 'path':
        path = os.path.join(driver.params['bin'], name)
        program = name
    else:
        path = os.path.join(base, name)
        program = path
    found = scenario['found']
    if found == 'ok' or found == 'forbidden':
        if found == 'forbidden':
            f = open(path, 'w')
            f.write('#!/bin/true\n')
            f.close()
        else:
            helper.make(binary, path, scenario['reads'], scenario['out'],
                        scenario['err'], scenario['status'],
                        scenario['signal'])
    elif found == 'directory':
        os.mkdir(path)
    elif found == 'interpreter':
        f = open(path, 'w')
        f.write('#!/nonexistent/sh\n')
        f.close()
        os.chmod(path, 0755)
    elif found == 'below':
        open(path, 'w').close()
        program += '/x'
    if how == 'here':
        program = './' + name
    elif how == 'link':
        os.symlink(path, os.path.join(driver.dir, 'ln'))
        program = os.path.join(driver.dir, 'ln')

    c = dict(text=scenario['text'] is not None, chars=[], words=[],
             found='ok' if found == 'ok' else 'missing', dir=True,
             program=list(program),
             status=scenario['status'], signal=scenario['signal'])
    if c['text']:
        command = scenario['text'].replace('@', program)
        c['chars'] = list(command)
        if scenario['unicode']:
            command = unicode(command)
        else:
            command = str(command)
    else:
        command = [str(w.replace('@', program)) for w in scenario['words']]
        c['words'] = [list(w) for w in command]
        if scenario['unicode']:
            command = map(unicode, command)
        if scenario['tuple']:
            command = tuple(command)

    kw = {}
    want = {}
    want['cwd'] = os.path.realpath(os.getcwd())
    if how == 'here':
        kw['cwd'] = base
        want['cwd'] = os.path.realpath(base)
    elif scenario['cwd'] == 'missing':
        kw['cwd'] = os.path.join(driver.dir, 'nowhere')
        c['dir'] = False
    elif scenario['cwd'] == 'file':
        kw['cwd'] = os.path.join(driver.dir, 'file')
        open(kw['cwd'], 'w').close()
        c['dir'] = False
    elif scenario['cwd']:
        kw['cwd'] = os.path.join(driver.dir, scenario['cwd'])
        if not os.path.isdir(kw['cwd']):
            os.makedirs(kw['cwd'])
        want['cwd'] = os.path.realpath(kw['cwd'])
    data = scenario['data']
    if data is not None:
        data = (''.join(map(chr, range(256))) * (data // 256 + 1))[:data]
        kw['data'] = data
    infile = None
    if scenario['infile'] is not None:
        p = os.path.join(driver.dir, 'input')
        f = open(p, 'wb')
        f.write('i' * scenario['infile'])
        f.close()
        infile = open(p, 'rb')
        kw['stdin'] = infile
    else:
        kw['stdin'] = None
    want['input'] = 'none'
    if scenario['reads']:
        want['input'] = helper.text(
            data if data is not None else
            'i' * (scenario['infile'] or 0))
    files = {}
    for stream, letter in (('out', 'a'), ('err', 'A')):
        text = helper.text(helper.pattern(letter, scenario[stream]))
        to = scenario[stream + 'to']
        want[stream] = want[stream + 'file'] = 'none'
        if to == 'pipe':
            kw['std' + stream] = subprocess.PIPE
            want[stream] = text
        elif to == 'file':
            files[stream] = os.path.join(driver.dir, 'to.' + stream)
            kw['std' + stream] = open(files[stream], 'wb')
            want[stream + 'file'] = text
        else:
            kw['std' + stream] = None
    if scenario['how'] == 'env':
        prefix = os.path.join(driver.dir, 'e v')
        os.makedirs(os.path.join(prefix, 'tmp'))
        environment = Environment(prefix)
        want['env'] = environment.variables.as_string_dict()
        function = environment.execute
    else:
        function = execute
        if scenario['env'] is None:
            want['env'] = dict(os.environ)
        else:
            want['env'] = dict((str(k), str(v))
                               for k, v in scenario['env'].items())
            kw['env'] = dict(want['env'])

    event = dict(ev='run', c=c, want=want, named=True, out='none', err='none')
    try:
        result = function(command, **kw)
        event['st'] = 'ok'
        if isinstance(result, tuple) and len(result) == 2:
            event['out'], event['err'] = map(helper.text, result)
        else:
            event['out'] = event['err'] = 'strange'
    except IpkgException, exc:
        event['st'] = 'ipkg'
        try:
            message = str(exc)
        except Exception, err:
            message = ''
            event['message'] = 'cannot be printed: ' + repr(err)
        event['named'] = program in message or '@' not in (
            scenario['text'] if c['text'] else ''.join(scenario['words']))
        event.setdefault('message', message)
    except:
        event['st'] = 'other'
        event['message'] = describe(sys.exc_info()[1])
    for f in kw.values():
        if isinstance(f, file):
            f.close()
    for stream in ('out', 'err'):
        event[stream + 'file'] = 'none'
        if stream in files:
            event[stream + 'file'] = helper.text(open(files[stream],
                                                      'rb').read())
    reports = helper.reports(path)
    event['ran'] = len(reports)
    event.update(args=[], cwd='', env={}, input='none')
    if reports:
        r = reports[0]
        event.update(args=[list(a) for a in r['args']], cwd=r['cwd'],
                     env=r['env'], input=helper.text(r['input']))
    for p in (path, path + '.ctl', path + '.rep'):
        if os.path.isfile(p):
            os.unlink(p)
    driver.emit(**event)


start(run)
