"""Formulas really loaded."""
import json
import os
from drv import start, attempt
from ipkg.build import Formula
from ipkg.repositories import FormulaRepository

BAD = {'there': False, 'broken': False, 'defs': [], 'tag': ''}


def strip(f):
    return dict(f, defs=[dict((k, v) for k, v in d.items() if k != 'names')
                         for d in f['defs']])


def run(driver, s):
    for f in s['files']:
        path = os.path.join(driver.dir, f['path'])
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        if f['f']['there']:
            out = open(path, 'w')
            out.write(f['text'])
            out.close()
    loaded = {}
    os.chdir(driver.dir)
    for op in s['ops']:
        if op['op'] == 'repo':
            st, value = attempt(lambda: [c.token for c in FormulaRepository(
                os.path.join(driver.dir, op['base']))])
            driver.emit(ev='repo', st=st, ids=value if st == 'ok' else [],
                        fs=[strip(s['files'][i]['f']) for i in op['members']],
                        why='' if st == 'ok' else value)
            continue
        f = s['files'][op['i']]
        if op['op'] == 'load':
            path = f['path']
            if op['how'] == 'abs':
                path = os.path.join(driver.dir, path)
            elif op['how'] == 'dots':
                path = os.path.join(driver.dir, 'p', '..', path)
            st, cls = attempt(Formula.from_file, path)
            token, attrs = 0, ''
            if st == 'ok':
                loaded[op['i']] = cls
                token = getattr(cls, 'token', 0)
                names = [n for d in f['f']['defs'] if d['id'] == token
                         for n in d.get('names', [])]
                values = [[n, getattr(cls, n, '?')] for n in names]
                attrs = json.dumps(
                    [[n, str(v) if n == 'revision' else v]
                     for n, v in values], sort_keys=True)
            driver.emit(ev='load', f=strip(f['f']), st=st, id=token,
                        attrs=attrs, why='' if st == 'ok' else str(cls))
        elif op['i'] not in loaded:
            pass
        elif op['op'] == 'new':
            st, value = attempt(loaded[op['i']])
            driver.emit(ev='new', f=strip(f['f']), st=st,
                        why='' if st == 'ok' else str(value))
        else:
            cls = loaded[op['i']]
            def use():
                # what an instance would do, whatever it lacks
                formula = cls.__new__(cls)
                return cls.token, formula.tag()
            st, value = attempt(use)
            token, tag = value if st == 'ok' else (0, '')
            driver.emit(ev='use', f=strip(f['f']), st=st, id=token, tag=tag,
                        why='' if st == 'ok' else str(value))
    os.chdir(driver.work)


start(run)
