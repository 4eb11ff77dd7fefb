"""The shared document set: fixtures of the repository, token soup, generated
wikitext, mutations and fixed regression documents."""
import json, os, random
import gen
from core import ROOT

_fix = None


def fixtures():
    global _fix
    if _fix is None:
        with open(os.path.join(ROOT, 'corpus', 'fixtures.json')) as f:
            _fix = [x['input'] for x in json.load(f)]
        extra = os.path.join(ROOT, 'corpus', 'regressions.json')
        if os.path.exists(extra):
            with open(extra) as f:
                _fix += json.load(f)
    return _fix


def documents(r, n, limit=1500, soup=12, word=None, attr=None, fix=True):
    """All fixtures (up to `limit` characters) and n generated documents."""
    out = [d for d in fixtures() if len(d) <= limit] if fix else []
    fx = fixtures()
    g = gen.Grammar(r, word=word, attr=attr)
    while n > 0:
        k = r.random()
        if k < .25:
            d = gen.soup(r, soup)
        elif k < .65:
            d = g.doc(r.choice([1, 2, 2, 3]))
        elif k < .8:
            d = gen.mutate(r, g.doc(2), r.choice(fx))
        else:
            d = gen.mutate(r, r.choice(fx), r.choice(fx))
        if len(d) <= limit:
            out.append(d)
            n -= 1
    return out


MODES = ['page', 'draft', 'forum-post', 'direct-message', 'list']
LAYOUTS = ['wikidot', 'wikijump']
