"""Trees which were not parsed from a text: recorded ones, changed.  They are read as JSON, as a program which keeps trees would."""
import copy

TEXTS = ['', ' ', 'x', 'é', 'a b', '<b>', '&amp;', '"q"', "'", '\U0001F980', '{$a}', 'javascript:x', '</style>', '\n', 'x' * 60, 'Ω', '%', 'a\u0301', '#a', '/p', 'http://e.co/', '\t']
TYPES = ['bold', 'italics', 'underline', 'superscript', 'subscript', 'strikethrough', 'monospace', 'span', 'div', 'mark', 'blockquote', 'insertion', 'deletion', 'hidden', 'invisible', 'size', 'ruby', 'ruby-text', 'paragraph']
NAMES = ['a', 'b', 'c', 'A', 'a b', '']
KEYS = ['class', 'id', 'style', 'title', 'data-x', 'aria-label', 'href', 'src', 'alt', 'name', 'type', 'checked', 'hidden', 'colspan', 'align', 'width', 'for', 'value', 'target', 'crossorigin']
ALIGN = ['left', 'right', 'center', 'justify']
BOOLS = ['hover', 'show-avatar', 'brackets', 'checked', 'start-open', 'show-top', 'show-bottom', 'header', 'float', 'has-toc', 'include-hidden', 'show-root', 'paragraph-safe']
# footnotes and bibliographies are parts of the tree which others count
FIXED = {'footnote', 'footnote-block', 'bibliography-block', 'partial'}


def lists(x, out, key=None):
    """All lists of elements within a piece of a tree."""
    if isinstance(x, list):
        if key in ('elements', 'key', 'value', 'footnotes') or (x and isinstance(x[0], dict) and 'element' in x[0]):
            if key != 'table-of-contents':
                out.append(x)
        for y in x:
            lists(y, out)
    elif isinstance(x, dict):
        for k, y in x.items():
            if k != 'table-of-contents':
                lists(y, out, k if isinstance(y, list) else None)
    return out


def dicts(x, out):
    if isinstance(x, list):
        for y in x:
            dicts(y, out)
    elif isinstance(x, dict):
        out.append(x)
        for k, y in x.items():
            if k not in ('attributes', 'variables'):
                dicts(y, out)
    return out


def holders(tree):
    """The lists elements may be put in."""
    out = [tree['elements']] + list(tree['footnotes']) + [e for b in tree['bibliographies'] for _, e in b]
    for part in list(out):
        for d in dicts(part, []):
            for k in ('elements', 'key', 'value'):
                if isinstance(d.get(k), list) and 'key_string' in d or k == 'elements' and isinstance(d.get(k), list):
                    out.append(d[k])
    return out


def movable(e):
    return not any(d.get('element') in FIXED for d in dicts(e, []))


def pool(trees):
    out = {}
    for t in trees:
        for d in dicts([t['elements'], t['footnotes']], []):
            if 'element' in d and movable(d) and len(str(d)) < 600:
                k = (d['element'], str(d['data'].get('type') or d['data'].get('module') or d['data'].get('embed')) if isinstance(d.get('data'), dict) else '')
                out.setdefault(k, []).append(d)
    return out


def pick(r, p):
    return copy.deepcopy(r.choice(p[r.choice(sorted(p))]))


def include(r, els):
    vs = {r.choice(NAMES): r.choice(TEXTS + ['v1', 'v2', 'v3']) for _ in range(r.choice([0, 1, 1, 2, 3]))}
    return {'element': 'include', 'data': {'paragraph-safe': r.random() < .5, 'variables': vs, 'location': {'site': r.choice([None, None, 's']), 'page': r.choice(['p', 'q', 'c:p'])}, 'elements': els}}


def variable(r):
    return {'element': 'variable', 'data': r.choice(NAMES + ['a', 'b'])}


def tweak(r, d):
    """One field of an element (or of a part of one) changed to something else it may be; whether there was one."""
    ks = sorted(d)
    r.shuffle(ks)
    for k in ks:
        v = d[k]
        if k in BOOLS and isinstance(v, bool):
            d[k] = not v
        elif k == 'attributes':
            if v and r.random() < .25:
                del v[r.choice(sorted(v))]
            else:
                v[r.choice(KEYS)] = r.choice(TEXTS)
        elif k == 'type' and isinstance(v, str) and v in TYPES:
            d[k] = r.choice(TYPES + [{'header': {'level': r.randint(1, 6), 'has-toc': False}}, {'align': r.choice(ALIGN)}])
        elif k == 'type' and isinstance(v, dict) and 'align' in v:
            d[k] = {'align': r.choice(ALIGN)}
        elif k == 'type' and v in ('bullet', 'numbered', 'generic'):
            d[k] = r.choice(['bullet', 'numbered', 'generic'])
        elif k == 'type' and v in ('direct', 'page', 'interwiki', 'anchor', 'table-of-contents') and 'label' in d:
            d[k] = r.choice(['direct', 'page', 'interwiki', 'anchor', 'table-of-contents'])
        elif k == 'align' and (v is None or isinstance(v, str)):
            d[k] = r.choice(ALIGN + ([None] if 'attributes' in d else []))
        elif k == 'alignment':
            d[k] = r.choice([None, {'align': r.choice(ALIGN), 'float': r.random() < .5}])
        elif k in ('title', 'show-text', 'hide-text', 'language', 'extra', 'button-text') and (v is None or isinstance(v, str)):
            d[k] = r.choice([None] + TEXTS)
        elif k == 'target' and 'elements' in d or k == 'target' and 'label' in d:
            d[k] = r.choice([None, 'new-tab', 'parent', 'top', 'same'])
        elif k == 'label' and 'link' in d:
            d[k] = r.choice([{'text': r.choice(TEXTS)}, {'url': r.choice([None] + TEXTS)}, 'page'])
        elif k == 'label' and isinstance(v, str) and 'elements' in d:
            d[k] = r.choice(TEXTS)
        elif k == 'link':
            d[k] = r.choice([{'site': r.choice([None, 's']), 'page': r.choice(['p', 'c:p', 'p q'])}, r.choice(['http://e.co/x', '#a', 'javascript:;', 'p q', '/p', '/p/e/true'])] + ([None] if 'source' in d else []))
        elif k == 'column-span':
            d[k] = r.choice([1, 2, 3, 10, 255])
        elif k == 'source' and isinstance(v, dict):
            d[k] = r.choice([{'type': 'url', 'data': 'http://e.co/i.png'}, {'type': 'file1', 'data': {'file': 'f.png'}}, {'type': 'file2', 'data': {'page': 'p', 'file': 'f g.png'}}, {'type': 'file3', 'data': {'site': 's', 'page': 'p', 'file': 'f.png'}}])
        elif k in ('contents', 'name', 'color', 'url', 'key_string') and isinstance(v, str) and 'latex-source' not in d:
            d[k] = r.choice(TEXTS)
        elif k == 'hide' and isinstance(v, bool) and 'index' not in d:
            d[k] = not v
        elif k == 'data' and d.get('element') in ('text', 'raw', 'email', 'variable', 'anchor-name', 'equation-reference'):
            d[k] = r.choice(TEXTS)
        elif k == 'data' and d.get('element') == 'clear-float':
            d[k] = r.choice(['left', 'right', 'both'])
        elif k == 'data' and d.get('element') == 'line-breaks':
            d[k] = r.choice([1, 2, 3, 10])
        else:
            continue
        return True
    return False


def change(r, tree, p):
    k = r.random()
    ls = holders(tree)
    l = r.choice(ls)
    if k < .3:
        i = r.randint(0, len(l))
        j = r.randint(i, min(len(l), i + 3))
        if any('element' in x for x in l[i:j]) or i == j:
            l[i:j] = [include(r, l[i:j] + ([variable(r)] if r.random() < .7 else []))]
    elif k < .45:
        l.insert(r.randint(0, len(l)), variable(r))
    elif k < .6:
        l.insert(r.randint(0, len(l)), pick(r, p))
    elif k < .66 and l:
        i = r.randrange(len(l))
        if movable(l[i]):
            if r.random() < .5:
                l.insert(i, copy.deepcopy(l[i]))
            else:
                del l[i]
    else:
        ds = dicts([tree['elements'], tree['footnotes'], tree['bibliographies']], [])
        for _ in range(20):
            if ds and tweak(r, r.choice(ds)):
                break


def strings(x, out):
    if isinstance(x, str):
        out.append(x)
    elif isinstance(x, list):
        for y in x:
            strings(y, out)
    elif isinstance(x, dict):
        for k, y in x.items():
            out.append(k)
            strings(y, out)
    return out


def some(c, r, n, bases, **more):
    """n cases with such trees, made of those of the bases, under their settings."""
    bases = [dict(x, want=['tree']) for x in bases]
    ts = [(o['tree'], x) for x, o in zip(bases, c.run(bases)) if o['outcome'] == 'ok']
    made = trees(r, [t for t, _ in ts], n)
    return [case(t, {k: v for k, v in r.choice(bases).items() if k not in ('text', 'want', 'id')}, **more) for t in made]


def trees(r, recorded, n, most=2500):
    """n trees, each a recorded one changed in one or a few ways."""
    recorded = [t for t in recorded if len(str(t)) < most]
    p = pool(recorded)
    out = []
    while len(out) < n:
        t = copy.deepcopy(r.choice(recorded))
        for _ in range(r.choice([1, 1, 2, 3, 5, 8])):
            change(r, t, p)
        out.append(t)
    return out


def case(tree, base, **more):
    """A case which takes that tree in place of the one of its text."""
    return dict(base, tree=tree, text='\n'.join(strings(tree, [])), nopre=True, **more)
