"""Package specifications."""
from drv import start, attempt
from ipkg.utils import parse_package_spec, make_package_spec
from ipkg.packages import MetaPackage, PackageFile
from ipkg.requirements import Requirement
from ipkg.build import Formula


class Plain(object):
    pass


def make(p):
    kind = p['k']
    data = dict((long, p[k]) for k, long in
                (('n', 'name'), ('v', 'version'), ('r', 'revision')) if k in p)
    if kind == 'dict':
        return data
    if kind in ('meta', 'file'):
        data.update(platform='any', dependencies=[])
        return MetaPackage(data) if kind == 'meta' else \
            PackageFile('/nowhere/x.ipkg', data)
    if kind == 'formula':
        return type('F', (Formula,), dict(data, sources='none'))()
    if kind == 'plain':
        obj = Plain()
        obj.__dict__.update(data)
        return obj
    return {'none': None, 'int': 3, 'list': ['a'], 'tuple': ('a', 'b'),
            'text': 'a==1', 'one': ('a',), 'empty': {}}[kind]


def run(driver, scenario):
    for t in scenario.get('texts', ()):
        st, parts = attempt(parse_package_spec, ''.join(t))
        event = dict(ev='read', t=t, st=st, n=[], v=[], r=[])
        if st == 'ok':
            for short, name in (('n', 'name'), ('v', 'version'),
                                ('r', 'revision')):
                event[short] = list(parts[name] or '')
        driver.emit(**event)
    for p in scenario.get('packages', ()):
        st, text = attempt(make_package_spec, make(p))
        meets = 'true'
        if p['k'] in ('meta', 'file'):
            obj = make(p)
            got = attempt(lambda: Requirement(str(obj)).satisfied_by(obj))
            if got != ('ok', True):
                meets = str(got)
        driver.emit(ev='made', st=st, t=list(text) if st == 'ok' else [],
                    meets=meets, p=dict((k, [] if p.get(k) is None else list(str(p[k])))
                           for k in ('n', 'v', 'r')))


start(run)
