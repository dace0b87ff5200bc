import operator
from drv import start, attempt
from ipkg import versions
from ipkg.packages import MetaPackage, PackageFile
from ipkg.build import Formula

OPS = {'lt': operator.lt, 'eq': operator.eq, 'gt': operator.gt,
       'le': operator.le, 'ge': operator.ge, 'ne': operator.ne}


def make(x):
    meta = {'name': x['n'], 'version': x['vt'], 'revision': x['rt'],
            'dependencies': [], 'platform': 'any'}
    kind = x['k']
    if kind == 'meta':
        return MetaPackage(meta)
    elif kind == 'file':
        return PackageFile('/nowhere/%s.ipkg' % x['n'], meta)
    else:
        cls = type('F', (Formula,), {
            'name': x['n'], 'version': x['vt'], 'revision': x['rt'],
            'sources': 'none'})
        return cls()


def truth(func, a, b):
    st, value = attempt(func, a, b)
    if st == 'ok':
        return 'true' if value is True else 'false' if value is False \
            else repr(value)[:50]
    return st


CONTAINERS = {'list': list, 'tuple': tuple, 'iter': iter,
              'gen': lambda s: (i for i in s)}


def run(driver, scenario):
    kind = scenario['t']
    if kind == 'cmp':
        xs = [(x, make(x)) for x in scenario['xs']]
        for y in scenario['ys']:
            if y['kind'] == 'pkg':
                obj = make(y)
            elif y['kind'] == 'other':
                obj = {'none': None, 'int': 42, 'list': [1],
                       'obj': object()}[y['what']]
            else:
                obj = y['text']
            for x, xobj in xs:
                driver.emit(ev='cmp', kind=y['kind'], x=x, y=y,
                            res=dict((name, truth(op, xobj, obj))
                                     for name, op in OPS.items()))
    else:
        texts, keys = scenario['texts'], scenario['key']
        kw = {}
        if scenario['kind'] == 'k':
            by_text = dict(zip(texts, keys))
            kw['parser'] = by_text.__getitem__
        for container, items, reverse in scenario['lists']:
            given = CONTAINERS[container]([texts[i - 1] for i in items])
            if reverse == 'most':
                st, value = attempt(versions.most_recent, given, **kw)
                out = texts.index(value) + 1 if value in texts else 0
                driver.emit(ev='most', kind=scenario['kind'], key=keys, st=st,
                            out=out, **{'in': items})
            else:
                if reverse is not None:
                    kw2 = dict(kw, reverse=reverse)
                else:
                    kw2 = kw
                st, value = attempt(versions.sorted, given, **kw2)
                out = []
                if st == 'ok':
                    out = [texts.index(v) + 1 if v in texts else 0
                           for v in value]
                driver.emit(ev='sort', kind=scenario['kind'], key=keys, st=st,
                            reverse=bool(reverse), out=out,
                            **{'in': items})


start(run)
