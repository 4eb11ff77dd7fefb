"""Recorded runs of whole documents against the specification's parser."""
import random, re
import args, docs, held, htmlscan, kinds, many, names as blocks, norm, themes, places, special

TAGS = ['tale', '_cc', 'zz', 'b', 'q-r']
PAGES = [{}, {}, {}, {'tags': []}, {'tags': ['zz']}, {'tags': ['tale', 'zz', 'b']}, {'category': 'q'}, {'site': 'p', 'category': '_default'},
         {'page': 'zz', 'tags': ['_cc']}, {'site': 's', 'page': 'p', 'title': 'T', 'category': 'c'}]


def case(text, r=None, **kw):
    """A document; with r, under varied page information and settings."""
    x = dict(op='full', text=text, mode='page', layout='wikidot', want=['pre', 'tokens', 'tree'])
    if r is not None:
        if r.random() < .3:
            x['mode'] = r.choice(docs.MODES)
        if r.random() < .3:
            x['layout'] = 'wikijump'
        if r.random() < .3:
            x['page'] = r.choice(PAGES)
        if r.random() < .15:
            x['set'] = {k: r.random() < .5 for k in r.sample(['enable-page-syntax', 'isolate-user-ids', 'use-true-ids', 'allow-local-paths'], r.randint(1, 3))}
    x.update(kw)
    return x


def usual(c, n, names=None, limit=500, fix=True, salt='docs', lo=2, hi=10, generated=None):
    """Fixtures, generated documents and documents composed of the pieces of themes."""
    r = c.rng(salt)
    if c.quick:
        n, generated = n * 2, generated and generated * 2
    g = n if generated is None else generated
    ds = docs.documents(r, g, limit=limit, fix=fix)
    names = list(themes.THEMES) if names is None else names
    if names:
        t = themes.compose(r, names, n, lo, hi)
        t += [themes.enclose(r, d) for d in t[:n // 3]]
        t = [themes.shout(r, d) if r.random() < .08 else d for d in t]
        ds += t
    ds += places.placed(c.rng(salt + '/places'), max(150, n // 4))
    ds += places.spaced(c.rng(salt + '/blanks'), ds, max(80, n // 8))
    ds += kinds.among(c.rng(salt + '/kinds'), max(150, n // 4))
    ds += held.holding(c.rng(salt + '/held'), max(120, n // 5))
    ds += args.arguments(c.rng(salt + '/args'), max(100, n // 6))
    ds += special.placed(c.rng(salt + '/special'), max(100, n // 6))
    ds += args.packed(c.rng(salt + '/packed'), max(12, n // 40), per=12)
    ds += blocks.written(c, c.rng(salt + '/names'), max(150, n // 6))
    ds += many.numerous(c.rng(salt + '/many'), max(30, n // 25), length=700 if c.quick else 2500)
    return [case(d, r) for d in ds]


def unique(cases):
    import json
    seen, out = set(), []
    for x in cases:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def diff(a, b, path=''):
    """The first place where two values differ."""
    if type(a) != type(b):
        return path, a, b
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return diff(a.get(k), b.get(k), path + '.' + k)
    if isinstance(a, list):
        for i in range(max(len(a), len(b))):
            if i >= len(a) or i >= len(b):
                return path + f'[{i}]', a[i:][:2], b[i:][:2]
            if a[i] != b[i]:
                return diff(a[i], b[i], path + f'[{i}]')
    return path, a, b


PARTS = ('els', 'errs', 'html', 'code', 'fns', 'bibs', 'toc')


def fell(c, case, result, stages):
    """A run without a result. That it does not return is C01's; what is sure to be missing is missed here, too."""
    why = result['outcome'] + ' ' + result.get('stage', '')
    left_out(c, why)
    if result['outcome'] == 'panic' and result.get('stage') in stages and not any(x in result.get('message', '') for x in LIBRARIES):
        c.violation(f'{case["text"]!r:.150} has no result: {result["stage"]} panicked, {result["message"][:200]}', case, result)
    elif result['outcome'] in ('timeout', 'abort') and not any(x in case['text'].lower() for x in ('css', 'math', '[[$')):
        c.violation(f'{case["text"]!r:.150} has no result: {result["outcome"]}', case, result)


LIBRARIES = ('latex2mathml', 'parcel_css')


def left_out(c, why):
    c.why = getattr(c, 'why', {})
    c.why[str(why)] = c.why.get(str(why), 0) + 1


def records(c, cases, results):
    out = []
    for i, (a, b) in enumerate(zip(cases, results)):
        if b['outcome'] != 'ok':
            fell(c, a, b, ('preprocess', 'tokenize', 'utf16', 'parse'))
            continue
        try:
            out.append(norm.record(i, a, b))
        except norm.Odd as e:
            left_out(c, e)
        except (KeyError, TypeError, ValueError, IndexError) as e:
            c.violation(f'the result has a form the specification does not know ({type(e).__name__} {e})', a, b)
    return out


def conform(c, cases, parts=PARTS, results=None, why=''):
    """Runs the cases and has every run validated against spec/Parser.tla; differences in
    `parts` (some of PARTS, or a function of what differs, want and got) are violations.
    Returns the results."""
    cases = cases if results is not None else unique(cases)
    results = c.run(cases) if results is None else results
    recs = records(c, cases, results)
    skipped, rej = c.tlc('TraceParser', traces=recs)
    c.modelled = getattr(c, 'modelled', 0) + len(recs) - len(skipped)
    for x in skipped:
        left_out(c, x.get('why', 'depth'))
    c.outside = getattr(c, 'outside', 0) + len(cases) - len(recs) + len(skipped)
    for x in sorted(rej, key=lambda x: len(cases[x['id']]['text'])):
        if (parts(x['why'], x['want'], x['got']) if callable(parts) else x['why'] in parts):
            p, w, g = diff(x['want'], x['got'])
            c.violation(f'{why}{x["why"]} of {cases[x["id"]]["text"]!r:.150} is not what the specification determines, at {p}: '
                        f'want {str(w):.150}, got {str(g):.150}', cases[x['id']], {'at': p, 'want': w, 'got': g})
    for r in recs:
        shape(c, r)
    return cases, results


def shape(c, rec):
    """Which element occurs where, and which rules failed: what makes documents different."""
    def walk(n, up):
        k = n['n'] + (':' + n['a'][0][1] if n['n'] == 'container' else '')
        c.seen((up, k))
        for x in n['c']:
            walk(x, k)
    for n in rec['els']:
        walk(n, '')
    for e in rec['errs']:
        c.seen((e['kind'], e['rule'], e['token']))


WANT = ['pre', 'tree', 'html', 'text']


def render_records(c, cases, results):
    out = []
    for i, (a, b) in enumerate(zip(cases, results)):
        if b['outcome'] != 'ok':
            fell(c, a, b, ('preprocess', 'tokenize', 'parse', 'render-html', 'render-text'))
            continue
        try:
            out.append(norm.render_record(i, a, b))
        except norm.Odd as e:
            left_out(c, e)
        except (KeyError, TypeError, ValueError, IndexError) as e:
            c.violation(f'the result has a form the specification does not know ({type(e).__name__} {e})', a, b)
    return out


def first(a, b):
    """Where two strings begin to differ."""
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    k = max(0, k - 30)
    return a[k:k + 160], b[k:k + 160]


def rendered(c, cases, concern, results=None):
    """Runs the cases and has every rendered page validated against spec/RenderHtml.tla.
    concern(what, want, got) tells which differences are of this property."""
    cases = unique([dict(x, want=sorted(set(x['want']) | set(WANT))) for x in cases]) if results is None else cases
    results = c.run(cases) if results is None else results
    recs = render_records(c, cases, results)
    _, rej = c.tlc('TraceRender', traces=recs)
    c.modelled = getattr(c, 'modelled', 0) + len(recs)
    c.outside = getattr(c, 'outside', 0) + len(cases) - len(recs)
    for x in sorted(rej, key=lambda x: len(cases[x['id']]['text'])):
        why = concern(x['why'], x['want'], x['got'])
        if why:
            w, g = first(x['want'], x['got']) if isinstance(x['want'], str) else diff(x['want'], x['got'])[1:]
            c.violation(f'{why} of {cases[x["id"]]["text"]!r:.150}: want {w!r}, got {g!r}', cases[x['id']],
                        {'what': x['why'], 'want': x['want'], 'got': x['got']})
    for r in recs:
        shape(c, dict(r, errs=[]))
    return cases, results


def events(h):
    out = []
    for e in htmlscan.events(h):
        x = {'k': e[0], 'tag': '', 'as': [], 's': ''}
        if e[0] == 'o':
            x['tag'] = e[1]
            x['as'] = [[k, v] for k, v, _ in e[2]]
        elif e[0] == 'c':
            x['tag'] = e[1]
        elif e[0] in 'tr':
            x['s'] = e[1]
        else:
            x['s'] = e[2]
        out.append(x)
    return out


def walk(ns):
    for n in ns:
        yield n
        yield from walk(n['c'])


def machine(c, cases, results, prop):
    """Has every page rendered read by the machine of spec/Html.tla; its verdicts on `prop` are violations."""
    recs = []
    for i, (a, b) in enumerate(zip(cases, results)):
        if b['outcome'] != 'ok':
            continue
        text = b.get('pre', a['text'])
        try:
            r = norm.result(b)
            if 'wj-' in text or prop == 'C07' and re.search(r'id\s*=\s*\S*toc|#\s*toc\d', text, re.I):
                raise norm.Odd('imitation')
            st = norm.settings(a)
            ns = list(walk(r['els'] + [e for f in r['fns'] for e in f] + [y for x in r['bibs'] for e in x for y in e['els']]))
        except norm.Odd:
            continue
        hidden = any(n['n'] == 'bibliography-block' and ['hide', 'true'] in n['a'] for n in ns)
        recs.append({'id': i, 'ev': events(norm.html(b['html'], b['now'])),
                     'c': {'fns': len(r['fns']), 'hidden': hidden, 'toc': st['trueids'] and not hidden and not re.search(r'toc_?\d', text, re.I),
                           'block': not hidden and any(n['n'] == 'footnote-block' and ['hide', 'false'] in n['a'] for n in ns)}})
    _, rej = c.tlc('TraceHtml', traces=recs)
    for x in sorted(rej, key=lambda x: len(cases[x['id']]['text'])):
        for p, msg in x['faults']:
            if p == prop:
                c.violation(f'{msg}, in the page of {cases[x["id"]]["text"]!r:.200}', cases[x['id']], {'html': results[x['id']]['html']})
                break
    c.read = getattr(c, 'read', 0) + len(recs)
    return rej


def extent(c):
    return {'documents_modelled': getattr(c, 'modelled', 0), 'documents_outside_the_model': getattr(c, 'outside', 0),
            'outside_because': getattr(c, 'why', {})}
