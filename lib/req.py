"""Requirements and platforms as texts (see spec/ReqText.tla)."""
from lib import vers

CURRENT = ['debian', 'trixie/sid', 'x86_64']
ANY = ['any', 'any', 'any']
OPS = ['==', '!=', '<', '<=', '>', '>=']


def plat_text(p, rng=None):
    text = 'any' if p == ANY and (rng is None or rng.random() < .5) \
        else '-'.join(p)
    if rng is not None and rng.random() < .3:
        text = rng.choice([text.upper(), text.title(), ' %s ' % text])
    return text


def sp(rng):
    return rng.choice(['', '', '', ' ', '  ']) if rng else ''


def render(r, rng=None, current=CURRENT):
    """A text for requirement ``r``: any order is the caller's."""
    text = ''
    if r['p'] != current or (rng and rng.random() < .2):
        text = plat_text(r['p'], rng) + ':'
    text += sp(rng) + r['n'] + sp(rng)
    if r['x']:
        text += '[' + ','.join(sp(rng) + x + sp(rng) for x in r['x']) + ']'
    text += sp(rng)
    text += ','.join(sp(rng) + s['o'] + sp(rng) + vers.text(s['v']) + sp(rng)
                     for s in r['s'])
    return text


def sel(o, v):
    return dict(o=o, v=v)


def req(n, p=None, x=(), s=()):
    return dict(n=n, p=p or CURRENT, x=list(x), s=list(s))
