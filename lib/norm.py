"""From the recorded (serialized) results of ftml to the node records of
spec/Tree.tla, and the per-document tables the specification is given for what
it leaves to Unicode, HTML and the calendar."""
import datetime, html.entities, re, unicodedata

ENTITIES = {}
for k, v in html.entities.html5.items():
    ENTITIES.setdefault(k[:-1] if k.endswith(';') else k, v)


class Odd(Exception):
    """Outside of what the specification models."""


def N(n, a, c=()):
    return {'n': n, 'a': [[k, v] for k, v in a], 'c': list(c)}


def attrs(m):
    return [('@' + k, m[k]) for k in sorted(m)]


def opt(name, v):
    return [] if v is None else [(name, v)]


def boolf(name, b):
    return [(name, 'true' if b else 'false')]


def target(l):
    if isinstance(l, str):
        return [('link-url', l)]
    return opt('link-site', l['site']) + [('link-page', l['page'])]


def nodes(es):
    return [node(e) for e in es]


def listnode(d):
    items = []
    for i in d['items']:
        if i['item-type'] == 'elements':
            items.append(N('item', attrs(i['attributes']), nodes(i['elements'])))
        else:
            items.append(N('sub-list', [], [node({'element': i['element'], 'data': i['data']})]))
    return N('list', [('type', d['type'])] + attrs(d['attributes']), items)


def rownode(r):
    cells = [N('cell', boolf('header', c['header']) + [('column-span', str(c['column-span']))] + opt('align', c['align'])
               + attrs(c['attributes']), nodes(c['elements'])) for c in r['cells']]
    return N('row', attrs(r['attributes']), cells)


def module(d):
    k = d['module']
    x = d.get('data') or {}
    f = [('module', k)]
    if k == 'backlinks':
        f += opt('page', x['page'])
    elif k == 'categories':
        f += boolf('include-hidden', x['include-hidden'])
    elif k == 'join':
        f += opt('button-text', x['button-text']) + attrs(x['attributes'])
    elif k == 'page-tree':
        f += opt('root', x['root']) + boolf('show-root', x['show-root'])
        if x['depth'] is not None:
            f += [('depth', str(x['depth']))]
    return N('module', f)


def node(e):
    k = e['element']
    d = e.get('data')
    if k in ('text', 'raw', 'variable', 'email', 'anchor-name', 'equation-reference', 'style'):
        return N(k, [('text', d)])
    if k == 'container':
        t = d['type']
        if isinstance(t, str):
            f = [('type', t)]
        elif 'header' in t:
            f = [('type', 'header'), ('level', str(t['header']['level']))] + boolf('has-toc', t['header']['has-toc'])
        else:
            f = [('type', 'align'), ('align', t['align'])]
        return N(k, f + attrs(d['attributes']), nodes(d['elements']))
    if k == 'module':
        return module(d)
    if k == 'table':
        return N(k, attrs(d['attributes']), [rownode(r) for r in d['rows']])
    if k == 'tab-view':
        return N(k, [], [N('tab', [('label', t['label'])], nodes(t['elements'])) for t in d])
    if k == 'anchor':
        return N(k, opt('target', d['target']) + attrs(d['attributes']), nodes(d['elements']))
    if k == 'link':
        l = d['label']
        if l == 'page':
            lab = ('label-page', '')
        elif 'text' in l:
            lab = ('label-text', l['text'])
        elif l['url'] is None:
            lab = ('label-bare-url', '')
        else:
            lab = ('label-url', l['url'])
        return N(k, [('type', d['type'])] + target(d['link']) + opt('extra', d['extra']) + [lab] + opt('target', d['target']))
    if k == 'image':
        s = d['source']
        f = [('source', s['type'])]
        if s['type'] == 'url':
            f += [('source-url', s['data'])]
        else:
            f += [('source-' + x, s['data'][x]) for x in ('site', 'page', 'file') if x in s['data']]
        if d['link'] is not None:
            f += target(d['link'])
        if d['alignment'] is not None:
            f += [('align', d['alignment']['align'])] + boolf('float', d['alignment']['float'])
        return N(k, f + attrs(d['attributes']))
    if k == 'list':
        return listnode(d)
    if k == 'definition-list':
        return N(k, [], [N('def', [('key', i['key_string'])],
                           [N('key', [], nodes(i['key'])), N('value', [], nodes(i['value']))]) for i in d])
    if k == 'radio-button':
        return N(k, [('name', d['name'])] + boolf('checked', d['checked']) + attrs(d['attributes']))
    if k == 'check-box':
        return N(k, boolf('checked', d['checked']) + attrs(d['attributes']))
    if k == 'collapsible':
        return N(k, boolf('start-open', d['start-open']) + opt('show-text', d['show-text']) + opt('hide-text', d['hide-text'])
                 + boolf('show-top', d['show-top']) + boolf('show-bottom', d['show-bottom']) + attrs(d['attributes']), nodes(d['elements']))
    if k == 'table-of-contents':
        return N(k, opt('align', d['align']) + attrs(d['attributes']))
    if k == 'footnote-block':
        return N(k, opt('title', d['title']) + boolf('hide', d['hide']))
    if k == 'bibliography-cite':
        return N(k, [('label', d['label'])] + boolf('brackets', d['brackets']))
    if k == 'bibliography-block':
        return N(k, [('index', str(d['index']))] + opt('title', d['title']) + boolf('hide', d['hide']))
    if k == 'user':
        return N(k, [('name', d['name'])] + boolf('show-avatar', d['show-avatar']))
    if k == 'date':
        return N(k, [('value', d['value'])] + opt('format', d['format']) + boolf('hover', d['hover']))
    if k == 'color':
        return N(k, [('color', d['color'])], nodes(d['elements']))
    if k == 'code':
        return N(k, [('contents', d['contents'])] + opt('language', d['language']))
    if k == 'math':
        return N(k, opt('name', d['name']) + [('latex-source', d['latex-source'])])
    if k == 'math-inline':
        return N(k, [('latex-source', d['latex-source'])])
    if k == 'embed':
        x = d['data']
        return N(k, [('embed', d['embed'])] + [(a, x[a]) for a in sorted(x)])
    if k == 'html':
        return N(k, [('contents', d['contents'])])
    if k == 'iframe':
        return N(k, [('url', d['url'])] + attrs(d['attributes']))
    if k == 'include':
        l = d['location']
        return N(k, boolf('paragraph-safe', d['paragraph-safe']) + opt('site', l['site']) + [('page', l['page'])]
                 + [('$' + v, d['variables'][v]) for v in sorted(d['variables'])], nodes(d['elements']))
    if k == 'line-breaks':
        return N(k, [('n', str(d))])
    if k == 'clear-float':
        return N(k, [('which', d)])
    if k in ('footnote', 'line-break', 'horizontal-rule'):
        return N(k, [])
    raise Odd(k)


# --- tables ------------------------------------------------------------------
WS = set('\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000')


def fold(cluster):
    """Characters in the normal form of page names."""
    out = ''
    for ch in unicodedata.normalize('NFKC', cluster):
        for x in ch.lower():
            out += x if (x.isalnum() or x in '-:_' if ord(x) < 128 else unicodedata.category(x)[0] in 'LN') else '-'
    return out


def word(ch):
    """What \\w is in Rust's regular expressions."""
    k = unicodedata.category(ch)
    return k[0] in 'LM' or k in ('Nd', 'Nl', 'Pc') or ch in '\u200c\u200d' or 0x24b6 <= ord(ch) <= 0x24e9 or 0x1f130 <= ord(ch) <= 0x1f189


def goes_on(ch):
    return unicodedata.category(ch)[0] == 'M' or unicodedata.combining(ch) or 0x1160 <= ord(ch) < 0x1200


def uni(text):
    """Characters outside ASCII, and what is composed of several: the normal form, and whether they belong to words."""
    t = {}
    for m in re.finditer('[^\x00-\x7f]+', text):
        run = text[max(0, m.start() - 1):m.end()]
        k = 0
        while k < len(run):
            e = k + 1
            while e < len(run) and goes_on(run[e]):
                e += 1
            if e - k > 9 or e > k + 1 and run[k] in '\\"\'{$':
                raise Odd('character')
            for i in range(k, e):
                for j in range(i + 1, e + 1):
                    x = run[i:j]
                    if not x.isascii():
                        t[x] = {'f': fold(x), 'w': all(map(word, x))}
            k = e
    return t


def ents(text):
    """Everything that could be named in [[char ...]]."""
    t = {}
    for m in re.finditer(r'\[\[\s*(?:char|character)_?\s([^\n\]]*)\]', text, re.I):
        s = m.group(1).strip(''.join(WS))
        if s.startswith('&'):
            s = s[1:]
        if s.endswith(';'):
            s = s[:-1]
        v = ENTITIES.get(s)
        if v is None and s.startswith('#'):
            for p, b, pat in (('#x', 16, r'\+?[0-9a-fA-F]+'), ('#', 10, r'\+?[0-9]+')):
                if s.startswith(p) and re.fullmatch(pat, s[len(p):]):
                    n = int(s[len(p):], b)
                    if n < 0x110000 and not 0xd800 <= n < 0xe000:
                        v = chr(n)
                        break
        if v is not None:
            t[s] = v
    return t


def offset(s):
    m = re.fullmatch(r'(\+|-)?([0-9]{1,2}):?([0-9]{2})?', s)
    if m:
        n = (int(m[2]) * 3600 + int(m[3] or 0) * 60) * (-1 if m[1] == '-' else 1)
    elif re.fullmatch(r'[+-]?[0-9]+', s):
        n = int(s)
    else:
        return None
    return n if abs(n) < 24 * 3600 else None


def showoff(n):
    a = abs(n)
    return f'{"-" if n < 0 else "+"}{a // 3600:02}:{a // 60 % 60:02}:{a % 60:02}'


def date(name, tz):
    """The serialized date; '' if there is none; None if not modelled."""
    if name.lower() == 'now' or name == '.':
        return None
    off = None
    kind, d = None, None
    if re.fullmatch(r'[+-]?[0-9]+', name):
        n = int(name)
        if not -377705116800 <= n <= 253402300799:
            return '' if abs(n) > 10**12 else None
        if n < -62000000000:
            return None
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=n)
        kind, off = 'tz', 0
    else:
        m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)(?:T(\d\d):(\d\d):(\d\d)(Z|[+-]\d\d:\d\d)?)?', name)
        if not m:
            return None if re.match(r'[0-9+-]', name) or ',' in name else ''
        try:
            d = datetime.datetime(*[int(x or 0) for x in m.groups()[:6]])
        except ValueError:
            return ''
        if m[7]:
            kind = 'tz'
            off = 0 if m[7] == 'Z' else (1 if m[7][0] == '+' else -1) * (int(m[7][1:3]) * 3600 + int(m[7][4:]) * 60)
        else:
            kind = 'datetime' if m[4] else 'date'
    if tz is not None:
        o = offset(tz)
        if o is None or kind == 'tz':
            return ''
        kind, off = 'tz', o
    day = f'{d.year:04}-{d.month:02}-{d.day:02}'
    if kind == 'date':
        return day
    s = f'{day} {d.hour:02}:{d.minute:02}:{d.second:02}.0'
    return s if kind == 'datetime' else s + ' ' + showoff(off)


def dates(text):
    t = {}
    for m in re.finditer(r'\[\[\s*date_?\s+([^\s\]]+)([^\]]*)', text, re.I):
        tzs = [None] + re.findall(r'tz\s*=\s*"([^"\n]*)"', m.group(2), re.I)
        for tz in tzs:
            v = date(m.group(1), tz)
            if v is not None:
                t[m.group(1) + ('' if tz is None else '|' + tz)] = v
    return t


def show(value):
    """RFC 2822 text of a serialized date."""
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)(?: (\d+):(\d\d):(\d\d)\.0(?: ([+-])(\d\d):(\d\d):(\d\d))?)?', value)
    if not m:
        raise Odd('date ' + value)
    d = datetime.datetime(*[int(x or 0) for x in m.groups()[:6]])
    if d.year < 1900 or (m[10] or '00') != '00':
        return '<ERROR>'
    return (f'{"Mon Tue Wed Thu Fri Sat Sun".split()[d.weekday()]}, {d.day:02} '
            f'{"Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()[d.month - 1]} {d.year:04} '
            f'{d.hour:02}:{d.minute:02}:{d.second:02} {m[7] or "+"}{m[8] or "00"}{m[9] or "00"}')


def fn(m, filler='\n(none)\n'):
    """A table as a record: TLC wants at least one field; the filler is a key nothing asks for."""
    return m or {filler: ''}


INTERWIKI = {'wikipedia': 'https://wikipedia.org/wiki/$$', 'wp': 'https://wikipedia.org/wiki/$$',
             'commons': 'https://commons.wikimedia.org/wiki/$$', 'google': 'https://google.com/search?q=$$',
             'duckduckgo': 'https://duckduckgo.com/?q=$$', 'ddg': 'https://duckduckgo.com/?q=$$',
             'dictionary': 'https://dictionary.com/browse/$$', 'thesaurus': 'https://thesaurus.com/browse/$$'}

# what the modes mean (see C12)
MODES = {m: {'pagesyn': m in ('page', 'draft', 'list'), 'isolate': False, 'trueids': m == 'page',
             'local': m in ('page', 'draft', 'list')}
         for m in ('page', 'draft', 'forum-post', 'direct-message', 'list')}


def settings(case):
    m = dict(MODES[case.get('mode', 'page')])
    s = case.get('set') or {}
    for a, b in (('pagesyn', 'enable-page-syntax'), ('isolate', 'isolate-user-ids'), ('trueids', 'use-true-ids'),
                 ('local', 'allow-local-paths')):
        if b in s:
            m[a] = s[b]
    m['interwiki'] = s.get('interwiki') or INTERWIKI
    return m


def context(case, res):
    """What the specification's parser needs to know (the tokens are those recorded)."""
    text = case['text']
    p = case.get('page') or {}
    st = settings(case)
    if 'now' in text.lower() and re.search(r'\[\[\s*date_?\s+(now|\.)', text, re.I):
        raise Odd('now')
    full = res.get('pre', text)
    dt = dates(full)
    toks = [{'k': t['t'], 's': t['s'], 'b': t['a'], 'e': t['b']} for t in res['tokens']]
    return {'T': toks, 'n': len(toks), 'pagesyn': st['pagesyn'], 'isolate': st['isolate'], 'uni': fn(uni(full), ''),
            'ents': fn(ents(full)), 'dates': fn(dt), 'shows': fn({v: show(v) for v in dt.values() if v}),
            'interwiki': fn(st['interwiki']), 'tags': p.get('tags', ['tale', '_cc']), 'cat': p.get('category') or '_default',
            'site': p.get('site', 'sandbox'), 'dash': '\u2014', 'laquo': '\u00ab', 'raquo': '\u00bb'}


def result(res):
    t = res['tree']
    r = result_(t, res)
    if max(map(depth, [r['els'], *r['fns'], *(e['els'] for b in r['bibs'] for e in b)])) > 115:
        raise Odd('depth')  # beyond what TLC's JSON reader allows
    return r


def result_(t, res):
    return {'els': nodes(t['elements']),
            'errs': [{'kind': e['kind'], 'rule': e['rule'], 'token': e['token'], 'b': e['span']['start'], 'e': e['span']['end']}
                     for e in res['errors']],
            'html': t['html-blocks'],
            'code': [{'contents': x['contents'], 'name': {'some': x['name'] is not None, 'v': x['name'] or ''}} for x in t['code-blocks']],
            'fns': [nodes(f) for f in t['footnotes']],
            'bibs': [[{'label': l, 'els': nodes(x)} for l, x in b] for b in t['bibliographies']],
            'toc': nodes(t['table-of-contents'])}


def depth(ns):
    n = 0
    while ns:
        n, ns = n + 1, [y for x in ns for y in x['c']]
    return n


def record(i, case, res):
    return dict({'id': i, 'c': context(case, res)}, **result(res))


# --- rendering -----------------------------------------------------------------
def stamp(value):
    """Unix time of a serialized date."""
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)(?: (\d+):(\d\d):(\d\d)\.0(?: ([+-])(\d\d):(\d\d):(\d\d))?)?', value)
    if not m:
        raise Odd('date ' + value)
    d = datetime.datetime(*[int(x or 0) for x in m.groups()[:6]])
    t = int((d - datetime.datetime(1970, 1, 1)).total_seconds())
    if m[7]:
        t -= (1 if m[7] == '+' else -1) * (int(m[8]) * 3600 + int(m[9]) * 60 + int(m[10]))
    return str(t)


def values(ns, kind, field, out):
    for n in ns:
        if n['n'] == kind:
            out.update(v for k, v in n['a'] if k == field)
        values(n['c'], kind, field, out)


AVATAR = re.compile(r'src="data:image/png;base64,[A-Za-z0-9+/=]*"')
ELAPSED = re.compile(r'data-timestamp="(-?\d+)" data-delta="(-?\d+)"')
GENERATOR = re.compile(r'<meta name="generator" content="[^<>&"\']+" />$')
RANDOM = re.compile(r'wj-id-[A-Za-z0-9]{16}')


def html(h, now):
    """HTML with what depends on chance or the clock replaced by what the specification writes."""
    ids = {}
    h = RANDOM.sub(lambda m: ids.setdefault(m[0], f'wj-id-{len(ids) + 1}'), h)
    h = ELAPSED.sub(lambda m: f'data-timestamp="{m[1]}" data-delta="{"T" if abs(int(m[1]) - now - int(m[2])) < 30 else m[2]}"', h)
    return AVATAR.sub('src="AVATAR"', h)


MINIFY = {'page': True, 'draft': True, 'forum-post': True, 'direct-message': True, 'list': True}


def page(p):
    return {'site': {'some': p['site'] is not None, 'v': p['site'] or ''}, 'page': p['page']}


def render_record(i, case, res):
    text = res.get('pre', case['text'])
    if 'wj-id-' in text or 'data:image/png' in text or 'data-delta' in text:
        raise Odd('imitation')
    r = result(res)
    st = settings(case)
    p = case.get('page') or {}
    ds = set()
    for ns in [r['els'], r['toc']] + r['fns'] + [e['els'] for b in r['bibs'] for e in b]:
        values(ns, 'date', 'value', ds)
    minify = (case.get('set') or {}).get('minify-css', MINIFY[case.get('mode', 'page')])
    b = res['backlinks']
    return {'id': i, 'els': r['els'], 'html': html(res['html'], res['now']), 'text': res['text'], 'parts': {'some': 'partial' in res, 'v': res.get('partial', [])}, 'safe': res.get('safe', []),
            'int': [page(x) for x in b['internal-links']], 'ext': b['external-links'], 'inc': [page(x) for x in b['included-pages']],
            'meta': [GENERATOR.sub('<meta name="generator" content="V" />', m) for m in res['metahtml']],
            'c': {'title': p.get('title', 'A page for the age'), 'alt': {'some': 'alt' in p, 'v': p.get('alt', '')}, 'tags': p.get('tags', ['tale', '_cc']),
                  'site': p.get('site', 'sandbox'), 'page': p.get('page', 'some-page'), 'trueids': st['trueids'], 'local': st['local'],
                  'minify': minify, 'uni': fn(uni(text + p.get('site', '') + p.get('page', '') + ''.join(st['interwiki'].values())), ''), 'shows': fn({v: show(v) for v in ds}), 'stamps': fn({v: stamp(v) for v in ds}),
                  'css': fn(res['css']), 'math': fn(res['math']), 'fns': r['fns'], 'bibs': r['bibs'], 'toc': r['toc']}}
