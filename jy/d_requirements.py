import platform
from drv import start, attempt
from ipkg.requirements import Requirement
from ipkg.platforms import Platform
from ipkg.packages import MetaPackage
from ipkg.build import Formula


class Bare(object):
    """Something with a name and a version, and no platform."""


def make(p):
    kind = p['k']
    if kind == 'dict':
        return dict(name=p['n'], version=p['vt'], platform=p['pt'],
                    revision='1')
    elif kind == 'nodict':
        return dict(name=p['n'], version=p['vt'])
    elif kind == 'meta':
        return MetaPackage(dict(name=p['n'], version=p['vt'], revision='1',
                                platform=p['pt'], dependencies=[]))
    elif kind == 'bare':
        obj = Bare()
        obj.name, obj.version = p['n'], p['vt']
        return obj
    else:
        fields = dict(name=p['n'], version=p['vt'], revision='1')
        if kind == 'formula':
            fields['platform'] = p['pt']
        cls = type('F', (Formula,), fields)
        return cls


def truth(func, *args):
    st, value = attempt(func, *args)
    if st == 'ok':
        return 'true' if value is True else 'false' if value is False \
            else repr(value)[:50]
    return st


def plat(p):
    return [p.os_name, p.os_release, p.architecture]


def describe(st, r, packages):
    if st != 'ok':
        return dict(st=st, name='', extras=[], plat=[], sat=[])
    return dict(st=st, name=r.name, extras=list(r.extras),
                plat=plat(r.platform),
                sat=[truth(r.satisfied_by, make(p)) for p in packages])


def fold(texts, tree, as_text):
    """Add the requirements ``texts`` as grouped by ``tree``."""
    if isinstance(tree, int):
        return Requirement(texts[tree])
    left = fold(texts, tree[0], as_text)
    if as_text and isinstance(tree[1], int):
        return left + texts[tree[1]]
    return left + fold(texts, tree[1], as_text)


def constant(value):
    return lambda *args, **kw: value


def current(item):
    """The platform of a machine of another kind."""
    full = (item['dist'], item['release'], 'codename')
    none = ('', ('', '', ''), '')
    mac = (item['release'], ('', '', ''), item['machine'])
    stubs = {'system': item['system'], 'machine': item['machine'],
             'dist': full if item['system'] == 'Linux' else ('', '', ''),
             'linux_distribution': full if item['system'] == 'Linux'
             else ('', '', ''),
             'mac_ver': mac if item['system'] == 'Darwin' else none,
             'uname': (item['system'], 'host', '5.1-x', '#1',
                       item['machine'], '')}
    saved = {}
    for name, value in stubs.items():
        saved[name] = getattr(platform, name)
        setattr(platform, name, constant(value))
    try:
        return attempt(Platform.current)
    finally:
        for name, function in saved.items():
            setattr(platform, name, function)


def run(driver, scenario):
    packages = scenario.get('pk', [])
    for item in scenario['items']:
        kind = item['ev']
        out = dict(item, pk=packages)
        if kind == 'parse':
            st, r = attempt(Requirement, item['text'])
            out.update(describe(st, r, packages))
            # versions given alone
            if st == 'ok':
                for i, p in enumerate(packages):
                    if p['n'] == r.name and p['k'] == 'meta' and \
                            p['pt'] == 'any':
                        got = truth(r.satisfied_by_version, p['vt'])
                        if got != out['sat'][i]:
                            out['sat'][i] += '/' + got
        elif kind == 'merge':
            st, r = attempt(fold, item['texts'], item['tree'],
                            item['as_text'])
            out.update(describe(st, r, packages))
        elif kind == 'eq':
            a = Requirement(item['ta'])
            b = Requirement(item['tb'])
            other = item['tb'] if item['as_text'] else b
            out.update(eq=truth(lambda: a == other),
                       ne=truth(lambda: a != other),
                       hash=truth(lambda: hash(a) == hash(b)))
        elif kind == 'notreq':
            a = Requirement(item['ta'])
            other = {'none': None, 'int': 42, 'list': [item['ta']]}.get(
                item['other'], item['other'][1:])
            out.update(eq=truth(lambda: a == other),
                       ne=truth(lambda: a != other))
        elif kind == 'text':
            text = ''.join(item['chars'])
            st, r = attempt(Requirement, text)
            if st == 'ok':
                out.update(st=st, name=list(r.name),
                           extras=[list(x) for x in r.extras])
            else:
                out.update(st=st, name=[], extras=[])
            del out['pk']
        elif kind == 'plateq':
            a = Platform(*item['a'])
            b = item['tb'] if item['as_text'] else Platform(*item['b'])
            out.update(eq=truth(lambda: a == b), ne=truth(lambda: a != b),
                       rev=truth(lambda: Platform(*item['b']) == a))
        elif kind == 'plat':
            st, p = attempt(Platform.parse, item['text'])
            got, again = [], []
            if st == 'ok':
                got = plat(p)
                again = plat(Platform.parse(str(p)))
            out.update(st=st, got=got, again=again,
                       eq=truth(lambda: Platform('any', 'any', 'any') ==
                                item['text']))
        elif kind == 'current':
            st, p = current(item)
            out.update(st=st, got=plat(p) if st == 'ok' else [],
                       itself=st == 'ok' and p == str(p) and
                       Platform.parse(str(p)) == p)
        driver.emit(**out)


start(run)
