"""Checks of including (C08) and of histories (C14)."""
import unicodedata
import concurrent.futures, hashlib, json, os, re, subprocess
import args, checks_html, core, docs, made, many, norm, pages

INCBITS = ['[[include ', '[[include ', '[[include\n', '[[ include ', '[[INCLUDE ', '[[include', '[[include-messy ', 'a', 'b', 'p', ':s:q', ':s:c:q', 'zz', '|', '|', ' | ', '=', 'x=', 'y = ', 'x-_1=', '{$x}', '{$y}', '{$z}', '{$x', '$}', ' ', '\n', '\n', ']]', ']]\n', ']]\n', ']] ', ']]\r\n',
           '[[include a]]', '\n[[include b x=1]]', '[[', '[', ']', '[[/include]]', '--]', '[!--', '@@', '[[code]]', '[[module', 'é', '漢', '🦀', '\t', '\u00a0', '\u2028', '"', 'K=', 'İ', ':', '::', '/', '#', 'w', 'Q', '_', '\\', '=1', '|x=2', '|y=\n3\n']
INCPAGES = [('a', 'A{$x}{$y}'), ('b', ''), ('p', '{$x}\n[[include a]]\n'), (':s:q', 'S{$x'), (':s:c:q', '{$$x}{${$x}}{$x}{$y}{$y}'), ('q', '漢{$x}é\n'), ('zz', None), ('c:q', '{$x-_1}\\1$0{$K}{$k}')]
FAULTS = ['fetch-error', 'drop-last', 'extra', 'swap', 'wrong-ref', 'wrong-last', 'other-site', 'no-site', 'longer', 'missing-error']
# the library's own includers
OWN = ['null', 'debug', 'debug']


def opt(x):
    return {'some': x is not None, 'v': x if x is not None else ''}


def asked(o):
    return [{'page': {'site': opt(p['page']['site'] if p['page']['hassite'] else None), 'page': p['page']['page']},
             'vars': [[kv['k'], kv['v']] for kv in p['vars']]} for p in o['asked']]


def included(o):
    return {'error': o['error'], 'output': o['output'], 'asked': asked(o),
            'pages': [{'site': opt(p['site'] if p['hassite'] else None), 'page': p['page']} for p in o['pages']]}


VARNAMES = ['x', 'x', 'y', 'z', '1', '1x', '9-', '-', '_', '--', 'x-y', 'x_y', '-x', '_x', 'x-', 'X', 'xX', 'a1', '007', 'long-name_of-a-variable', 'xx', 'x1', 'name', 'value', 'page', 'class', 'include', 'true']
# alphabets: every text of these pieces, up to the bound
INCSETS = [['[[include a]]', '[[include ', '\n', ']]', '|', 'x=', '{$x}', 'a', ' '],
           ['[[include p x=', '[[include b', '\n', ']]', 'y', '|', '|x=2', ']'],
           ['[[include a x=1]]', '\n', '[[include zz]]', '[[include :s:q | y=', ']]', 'w{$x}', '[']]


def C08(c):
    q = c.quick
    def replay(cs):
        ins = [{'op': 'include', 'text': x['text'], 'fault': x['fault'], 'pages': {'a': 'A{$x}{$y}', 'b': '', 'p': '{$x}\n[[include a]]'}} for x in cs]
        for x, i, o in zip(cs, ins, c.run(ins)):
            if o['outcome'] != 'ok':
                if o['outcome'] == 'panic':
                    c.violation(f'including {i["text"]!r:.200} with an includer which is {i["fault"] or "right"} has no result: {o.get("message", "")[:200]}', i, o)
                continue
            got = included(o)
            if got != x['r']:
                p, w, g = pages.diff(x['r'], got)
                c.violation(f'including {i["text"]!r} with an includer which is {i["fault"] or "right"}: at {p} want {w!r}, got {g!r}', i, {'want': x['r'], 'got': got})
            c.seen((x['fault'], x['r']['error'], len(x['r']['asked']), tuple(len(a['vars']) for a in x['r']['asked'])))
        c.traces += len(cs)
    for k, ps in enumerate(INCSETS):
        path = os.path.join(c.dir, f'pieces{k}.json')
        with open(path, 'w') as f:
            json.dump(ps, f)
        cs, _ = c.tlc('MCInclude', env={'MAXLEN': (4 if k == 0 else 3) if q else 5, 'PIECES': path})
        replay(cs)
    r = c.rng('include')
    ins = []

    def add(t, **kw):
        ps = dict(r.sample(INCPAGES, r.randint(0, len(INCPAGES))) if r.random() < .3 else INCPAGES)
        st = {}
        if r.random() < .15:
            st['enable-page-syntax'] = r.random() < .3
        if r.random() < .3:
            st['use-include-compatibility'] = r.random() < .5
        ins.append(dict(op='include', text=t, fault=r.choice(FAULTS) if r.random() < .35 else r.choice(OWN) if r.random() < .3 else '', pages=ps, set=st, mode=r.choice(docs.MODES) if r.random() < .2 else 'page', **kw))

    def directive(depth=0):
        w = lambda: r.choice(['1', 'é漢', 'v w', '', ' ', '{$x}', '{$y}', '{$w}', 'a=b', ']', ']] x', '[[x]]', '\n', 'l\nm', '🦀', '"q"', '\\1', '$0', '[[include a]]', '|'])
        args = r.choice([' | ', '|', ' |', '\n| ', '\n|\n']).join(r.choice(['x', 'y', 'x', 'z', 'x-_1', 'K', 'k', 'é', 'x y']) + r.choice(['=', ' = ', '\n=\n', '= ']) + w() for _ in range(r.randint(0, 4)))
        if depth < 2 and r.random() < .2:
            args += r.choice(['x=', '|x=\n', ' ']) + directive(depth + 1)
        return r.choice(['[[include ', '[[include ', '[[include ', '[[ include\t', '[[InClude ', '[[include-messy ', ' [[include ', '[[\n\ninclude ', '[[incl ']) + r.choice(['a', 'b', 'p', ':s:q', ':s:c:q', 'zz', 'q', 'c:q', 'Q', 'A B', 'é', ':s:', '::q', ':q', 'none', '_', 'q/e', ':s:zz', 'a#b']) \
            + r.choice(['', ' ', ' | ', '|', '\n|', ' \n']) + args + r.choice(['', '', '|', ' |', '\n', '|\n']) + r.choice([']]', ']]', ']]', ']]', ' ]]', ']', ']]]', ']] ', ''])

    for _ in range(2500 if q else 40000):
        add(''.join(r.choice(INCBITS) for _ in range(r.randint(1, 14))))
    fill = ['', 'text\n', '\n', '\n\n', 'é漢🦀\n', ' ', 'x', '\r\n', '{$x}\n', '[[div]]\n', '@@[[include a]]@@\n', '[!--\n', '\ufeff', '[[code]]\n', '[[module css]]\n']
    for _ in range(2500 if q else 40000):
        add(r.choice(fill) + ''.join(directive() + r.choice(['\n', '\n', '\n', '', '\r\n', ' ']) + r.choice(fill) for _ in range(r.randint(1, 5))))
    for d in docs.fixtures():
        if 'include' in d and len(d) < 3000:
            for _ in range(2 if q else 10):
                add(d)
    # variables: what they are called, given and used as
    for _ in range(1500 if q else 25000):
        own = r.sample(VARNAMES, r.randint(1, 3))
        name = lambda: r.choice(own if r.random() < .8 else VARNAMES)
        use = lambda: r.choice(['{$%s}', '{$%s}', '{$%s}', '{$%s}', '{$%s', '{%s}', '$%s}', '{$ %s}', '{$%s }', '{$$%s}', '{{$%s}}', '{$%s}}', '{$%s{$%s}}', '%s']).replace('%s', name())
        text = lambda: ''.join(r.choice(['', ' ', 'w', 'é', '\n', '🦀', '{', '}', '$', use(), use(), use()]) for _ in range(r.randint(0, 6)))
        given = lambda: r.choice([use, use, text, lambda: r.choice(['1', 'v w', 'é', 'a=b', '"q"', '\\1', '$0', '${x}', '\n\nz\n', ']', '[[x]]', '{$' + name() + '} ', ' {$' + name() + '}'])])().replace('|', '')
        d = ''.join(r.choice(['', 'x', '{$x}\n', '\n']) + '[[include ' + r.choice('ab') + ' ' + r.choice(['', '| ']) + r.choice([' | ', '|', '\n|']).join(name() + r.choice(['=', ' = ', '=\n']) + given() for _ in range(r.randint(0, 4))) + r.choice(['', '', ' ', '|']) + ']]\n' for _ in range(r.choice([1, 1, 1, 2, 3])))
        ins.append(dict(op='include', text=d, fault=r.choice(OWN) if r.random() < .2 else '', pages={'a': text(), 'b': text()}, mode='page'))
    # long and many
    for n in (7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 129):
        for d, ps in [('[[include a x=' + 'v' * n + ']]', {'a': '{$x}'}), ('[[include a ' + 'x' * n + '=v]]', {'a': '{$' + 'x' * n + '}{$' + 'x' * (n - 1) + '}'}), ('[[include ' + 'a' * n + ']]', {'a' * n: 'y'}), ('[[include a ' + ' | '.join(f'x{k}={k}' for k in range(n)) + ']]', {'a': ''.join('{$x%d}' % k for k in range(n))}),
                      ('\n'.join(['[[include a x=%d]]' % k for k in range(n // 2)]), {'a': '<{$x}>'}), ('[[include a x=1]]', {'a': '{$x}é' * n}), ('[[include a x={$x}{$x}]]', {'a': '{$x}' * n}), ('é' * n + '\n[[include a]]\n' + '🦀' * n, {'a': 'y'}), ('[[include a]]' + '\n' * n + '[[include a]]', {'a': 'y' * n}), ('[[include a ' + 'x = 1 | ' * (n // 2) + ']]', {'a': '{$x}'})]:
            ins.append(dict(op='include', text=d, fault=r.choice(['', '', '', 'swap', 'extra', 'other-site', 'null', 'debug']), pages=ps, mode='page'))
    ins = [i for i in ins if '\0' not in i['text']]
    for i in ins:
        # how Rust writes characters that cannot be seen is none of our business
        if i['fault'] == 'debug' and any(unicodedata.category(ch)[0] in 'CMZ' and ch not in ' \n\r\t' for ch in i['text']):
            i['fault'] = ''
    res = c.run(ins)
    tr = []
    for k, (i, o) in enumerate(zip(ins, res)):
        if o['outcome'] == 'ok':
            tr.append({'id': k, 'text': i['text'], 'pagesyn': norm.settings(i)['pagesyn'], 'fault': i['fault'],
                       'pages': norm.fn({n: opt(v) for n, v in i['pages'].items()}), 'got': included(o)})
        elif o['outcome'] == 'panic':
            c.violation(f'including {i["text"]!r:.200} with an includer which is {i["fault"] or "right"} has no result: {o.get("message", "")[:200]}', i, o)
    _, rej = c.tlc('TraceInclude', traces=tr)
    for x in sorted(rej, key=lambda x: len(ins[x['id']]['text'])):
        i, got = ins[x['id']], included(res[x['id']])
        p, w, g = pages.diff(x['want'], got)
        c.violation(f'including {i["text"]!r:.200} with an includer which is {i["fault"] or "right"}: at {p} want {w!r:.200}, got {g!r:.200}', i, {'want': x['want'], 'got': got})
    for t in tr:
        c.seen((t['fault'], t['got']['error'], tuple((len(a['vars'])) for a in t['got']['asked'])))
    if tr:
        c.sample({'text': tr[-1]['text'], 'got': tr[-1]['got']})
    return c.finish(rule='all texts of the pieces of three alphabets up to the bound x all includers, with the machine\'s steps; directives of every form, nested, repeated, damaged, in texts of '
                    'every width, x includers x settings; distinct = (includer, outcome, numbers of variables)')


# --- histories --------------------------------------------------------------------
def sha(x):
    return hashlib.sha1(x.encode()).hexdigest()[:16]


def digest(v, now):
    """What a step returned, up to what is meant to be random or to tell the time."""
    return sha(json.dumps(dict(v, html=norm.html(v['html'], now)) if 'html' in v else v, sort_keys=True))


def items(h):
    """Of each item: its value, whether it is equal to what it is a copy of, the errors of a parse."""
    out = []
    for v in h['values']:
        if 'tree' in v:
            x = v['x']
            out.append((sha(v['tree']), x if isinstance(x, bool) else not isinstance(x, str), sha(json.dumps(x, sort_keys=True)) if isinstance(x, list) else ''))
        else:
            out.append((digest(v, h['now']), 'missing' not in v, ''))
    return out


def values(terms, h):
    b = {}
    for t, (v, _, e) in zip(terms, items(h)):
        b[t] = v
        if t.startswith('parse'):
            b['errors of ' + t] = e
    return b


def simple(*steps):
    """A history of one thread; each step is (op, item, doc)."""
    return [e for s in steps for e in (['start', 0, *s], ['end', 0])]


# how a process of its own computes the values for documents i (text) and j (page, settings)
def base_events(i, j, k):
    return simple(('prepare', -1, i), ('parse', 0, j), ('html', 1, j), ('text', 1, j), ('html', 1, k), ('text', 1, k))


def base_terms(i, j, k):
    t = f'parse(prepare({i}),{j})'
    return [f'prepare({i})', t, f'html({t},{j})', f'text({t},{j})', f'html({t},{k})', f'text({t},{k})']


def fresh(c, jobs):
    """Each case in a process of its own."""
    def one(a):
        n, case = a
        fin, fout = os.path.join(c.dir, f'fresh{n}.in'), os.path.join(c.dir, f'fresh{n}.out')
        with open(fin, 'w') as f:
            f.write(json.dumps(dict(case, id=0)) + '\n')
        subprocess.run([core.BIN, fin, fout, '1', '20000', '16384'], capture_output=True)
        try:
            with open(fout) as f:
                return json.loads(f.read())
        except (OSError, ValueError):
            return {'outcome': 'abort'}
        finally:
            for p in (fin, fout):
                if os.path.exists(p):
                    os.remove(p)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, enumerate(jobs)))


LINKY = ['[[[pg]]] [[[:s:c:p|x]]]', '[[image a.png]] [[image p/b.png]]', '[wp:Z w] [[[!wp:q|z]]]', '[[iftags tale]]a[[/iftags]][[iftags zz]]b[[/iftags]]', '[[ifcategory q]]a[[/ifcategory]]b', '[[div id="a"]]\nx\n[[/div]] [[# b]]', '+ h\n[[toc]]\n+ k', '[[module css]]\n.a { color : red }\n[[/module]]',
         '[[footnote]]f[[/footnote]]', '[[user U]]', '[[module Rate]]', '[[math E]]\nx\n[[/math]] [[eref E]]', '[[bibliography]]\n: k : v\n: l : w\n[[/bibliography]]\n((bibcite l)) ((bibcite k))', '[[code]]\nc\n[[/code]]', '[[include-elements p x="1" y="2"]]{$x}', '[[a href="/x" title="t" class="c" id="i" data-z="1" data-a="2" aria-label="q"]]y[[/a]]', '[[tabview]][[tab a]]x[[/tab]][[/tabview]]', '[[collapsible]]\nx\n[[/collapsible]]']


def C14(c):
    q = c.quick
    r = c.rng('pairs')
    # what threads do, and when
    hs, _ = c.tlc('MCHistory', env={'MAXLEN': 3, 'BEFORE': 'none'})
    h2, _ = c.tlc('MCHistory', env={'MAXLEN': 2 if q else 3, 'BEFORE': 'parsed'})
    h3, _ = c.tlc('MCHistory', env={'MAXLEN': 10, 'BEFORE': 'parsed'}, simulate=150 if q else 3000)
    hs += h2 if q else r.sample(h2, min(len(h2), 60000))
    hs += h3 * 2
    r.shuffle(hs)

    def variant(d):
        x = dict(d)
        k = r.random()
        if k < .3:
            x['page'] = r.choice([p for p in pages.PAGES if p])
        elif k < .45:
            x['mode'] = r.choice(docs.MODES)
        elif k < .6:
            x['layout'] = 'wikijump'
        elif k < .75:
            x['set'] = {'interwiki': {'wp': r.choice(['http://w.co/$$', 'http://v.co/$$/x']), 'q': 'http://q.co/$$'}}
        else:
            x['set'] = {n: r.random() < .5 for n in r.sample(['enable-page-syntax', 'isolate-user-ids', 'use-true-ids', 'allow-local-paths', 'minify-css'], 3)}
        return x

    def doc():
        t = r.choice([lambda: r.choice(LINKY), lambda: ' '.join(r.choice(LINKY) for _ in range(3)), lambda: '\n\n'.join(r.sample(LINKY, 4)), lambda: r.choice(checks_html.BLOCKS), lambda: r.choice(checks_html.ATOMS),
                      lambda: checks_html.composed(r, 1)[0], lambda: r.choice([d for d in docs.fixtures() if len(d) < 400])])()
        return {'text': t}
    pairs = []
    for _ in range(200 if q else 2500):
        a = doc()
        k = r.random()
        b = variant(a) if k < .5 else doc() if k < .8 else dict(variant(a), text=a['text'] + r.choice([' x', '\n\n' + r.choice(LINKY)]))
        if r.random() < .3:
            a, b = b, a
        pairs.append([a, b])
    jobs = [{'op': 'history', 'docs': p, 'events': base_events(i, j, 1 - j)} for p in pairs for i in (0, 1) for j in (0, 1)]
    bases = fresh(c, jobs)
    c.evals += len(jobs)
    base = []
    for n in range(len(pairs)):
        b = {}
        for m, (i, j) in enumerate([(0, 0), (0, 1), (1, 0), (1, 1)]):
            o = bases[4 * n + m]
            if o['outcome'] != 'ok':
                b = None
                break
            b.update(values(base_terms(i, j, 1 - j), o))
        base.append(b)
    cases, which, hist = [], [], []
    for n, h in enumerate(hs):
        p = n % len(pairs)
        if base[p] is not None:
            cases.append({'op': 'history', 'docs': pairs[p], 'events': h['events']})
            which.append(base[p])
    # every construct, and what becomes of its tree when it is copied, written and read
    whole = simple(('prepare', -1, 0), ('parse', 0, 0), ('read', 1, 0), ('own', 1, 0), ('copy', 1, 0), ('read', 3, 0), ('own', 2, 0), ('html', 2, 0), ('text', 2, 0), ('html', 1, 0), ('html', 3, 0), ('text', 3, 0), ('html', 6, 0), ('html', 1, 0), ('text', 1, 0), ('prepare', -1, 0), ('parse', 15, 0))
    ds = [{k: v for k, v in x.items() if k not in ('op', 'want')} for x in pages.unique(checks_html.everything(c, 500 if q else 8000) + pages.usual(c, 700 if q else 10000, limit=400))]
    ds += [{'text': f'[[date {x}]]'} for x in args.DATES] + [{'text': f'[[date {x} tz="{z}"]]'} for x in ('2007-05-12T09:34:51', '0000-01-01', '9999-12-31T23:59:59') for z in args.ZONES]
    ds += [{k: v for k, v in x.items() if k in ('text', 'tree', 'set', 'page', 'mode', 'layout')} for x in made.some(c, c.rng('made'), 1500 if q else 20000, [pages.case(**{k: v for k, v in d.items() if k in ('text',)}) for d in r.sample(ds, min(len(ds), 1500))])]
    few = simple(('prepare', -1, 0), ('parse', 0, 0), ('html', 1, 0), ('text', 1, 0))
    alone = c.run([{'op': 'history', 'docs': [d], 'events': few} for d in ds])
    for d, o in zip(ds, alone):
        if o['outcome'] == 'ok':
            cases.append({'op': 'history', 'docs': [d], 'events': whole})
            which.append(values(base_terms(0, 0, 0), o))
    res = c.run(cases)
    tr = []
    for k, (x, o, b) in enumerate(zip(cases, res, which)):
        if o['outcome'] != 'ok':
            c.violation(f'a step returned nothing although it does in other histories ({o.get("message", "")[:200]}): {[d["text"] for d in x["docs"]]!r:.200}', x, o)
            continue
        vs = items(o)
        tr.append({'id': k, 'events': x['events'], 'values': [v for v, _, _ in vs], 'same': [s for _, s, _ in vs], 'errors': [e for _, _, e in vs], 'base': b})
    _, rej = c.tlc('TraceHistory', traces=tr)
    for x in sorted(rej, key=lambda x: len(json.dumps(cases[x['id']]))):
        i = cases[x['id']]
        why = 'is not equal to the tree it was made of' if not x['same'] else 'is not what the same step gives elsewhere'
        c.violation(f'item {x["at"]} of a history, {x["term"]}, {why}: {[(d["text"], {k: v for k, v in d.items() if k != "text"}) for d in i["docs"]]!r:.400}', i, {'at': x, 'got': res[x['id']]['values'][x['at'] - 1], 'base': which[x['id']]})
    for t, x in zip(tr, cases):
        c.seen(tuple(map(str, t['events'])) if len(x['docs']) > 1 else x['docs'][0]['text'])
    c.sample({'events': tr[0]['events'], 'docs': cases[0]['docs']})
    return c.finish(rule='all histories of up to 3 steps (2 more once both documents are parsed) of two threads over two documents, longer ones at random, over pairs of documents that differ in text, page or '
                    'settings; every construct copied, written, read and rendered again; values are compared with those of a process of its own; distinct = different histories or documents',
                    extra={'histories': len(hs), 'pairs': len(pairs)})


# --- completion -------------------------------------------------------------------
PAIRS = [(a, b) for a, b in [
    ('[[%s]]' % n, '[[/%s]]' % n) for n in ('b', 'i', 'u', 's', 'sub', 'sup', 'tt', 'mark', 'ins', 'del', 'hidden', 'invisible', 'span', 'div', 'blockquote', 'p', '=', '<', '>', '==', 'collapsible', 'ul', 'ol', 'li', 'table', 'row', 'cell',
                                            'hcell', 'tabview', 'ruby', 'rt', 'footnote', 'bibliography', 'code', 'html', 'math', 'a', 'anchor', 'iftags', 'iftags tale', 'ifcategory', 'module css', 'module', 'size 2em', 'tab x', 'target t', 'include-elements p', 'div_', 'span_')]
] + [('**', '**'), ('//', '//'), ('__', '__'), ('^^', '^^'), (',,', ',,'), ('--', '--'), ('{{', '}}'), ('##red|', '##'), ('@@', '@@'), ('@<', '>@'), ('[!--', '--]'), ('[[[', ']]]'), ('[[[p|', ']]]'), ('[http://e.co ', ']'), ('[# ', ']'), ('[[$', '$]]'), ('((bibcite k', '))'), ('{$', '}'),
     ('[[', ']]'), ('[', ']'), ('[[*', ']]'), ('[[# ', ']]'), ('||', '||'), ('||', '||\n'), ('\n||', '||\n'), ('||~', '||'), ('> ', '\n'), ('\n>', ''), ('>', ''), ('\n* ', ''), ('* ', '\n'), (' ', '* x\n'), ('\n # ', ''), ('\n: a : ', '\n'), (': ', ' : b\n'), ('\n+ ', '\n'), ('+', ' '), ('\n= ', '\n'), ('"', '"'), ('``', "''"), ('<<', '>>'),
     ('[[div class="', '"]]\n[[/div]]'), ('[[span x="y" ', ']]z[[/span]]'), ('[[ul]][[li]]', '[[/li]][[/ul]]'), ('[[ul]]\n[[li]]\n', '\n[[/li]]\n[[/ul]]'), ('[[table]][[row]][[cell]]', '[[/cell]][[/row]][[/table]]'), ('[[tabview]][[tab x]]', '[[/tab]][[/tabview]]'), ('[[ruby]]x[[rt]]', '[[/rt]][[/ruby]]'),
     ('[[bibliography]]\n: k : ', '\n[[/bibliography]]\n'), ('[[div]]\n', '\n[[/div]]'), ('[[div]]\n\n', '\n\n[[/div]]\n'), ('[[collapsible]]\n', '\n[[/collapsible]]\n'), ('[[footnote]]a', '[[/footnote]]'), ('+ h[[footnote]]', '[[/footnote]]\n'), ('[[image ', ']]'), ('[[user ', ']]'), ('[[date ', ']]'), ('[[toc]]', ''), ('[[footnoteblock]]', ''),
     ('~~~~', ''), ('-', ''), ('_', ''), (' _\n', ''), ('@', ''), ('.', ''), ('\\', ''), ('\n', ''), ('\n\n', ''), ('=', ''), ('|', ''), ('#', ''), ('a ', ''), ('é', ''), ('&amp;', ''), ('http://e.co/', ' '), ('a@b.cd ', ''), ('[[lines 100]]', ''), ('[[char &#', ';]]'), ('[[include a ', ']]\n'), ('\n[[include p x=', '\n]]'), ('[[include a | x=1 |', ']]')]
GAPS = ['x', '\n', '\n\n', '\n\n\n', ' ', ' x\ny ', '**', '[[div]]', '[[/div]]', ']]', '@@', '\n----\n', '||', 'é\u2028\U0001F980', '\n> ', '\n* ', '[[footnote]]f[[/footnote]]', '[[/', '\\\n', '\0', '\t', '\u00a0', '[[toc]]\n+ h\n', '"', '[[footnoteblock]]', '((bibcite k))', '[!--', '--]', '\r']


def outcomes(c, cases, results, why=''):
    recs, skipped = [], 0
    for k, (i, o) in enumerate(zip(cases, results)):
        if o['outcome'] == 'skipped':
            skipped += 1        # others have brought down the process, or never returned
            continue
        recs.append({'id': k, 'op': i['op'], 'including': bool(i.get('include')), 'n': len(i['text']), 'even': bool(i.get('even')), 'outcome': o['outcome'], 'stages': o.get('stages', []), 'cpu': o.get('cpu', 0)})
    _, rej = c.tlc('TraceOutcome', traces=recs)
    for x in sorted(rej, key=lambda x: len(cases[x['id']]['text'])):
        i, o = cases[x['id']], results[x['id']]
        what = f'took {o.get("cpu")} ms' if x['why'] == 'slow' else f'{x["why"]} after stage "{x["stage"]}"'
        c.violation(f'{what}: {len(i["text"])} characters, {i["text"]!r:.200} {o.get("message", "")[:200]}', i, o, key=str(o.get('message')) if o['outcome'] == 'panic' else i['text'])
    if skipped and not c.violations:
        raise core.ToolError(f'{skipped} runs were skipped')
    c.longest = max([getattr(c, 'longest', 0)] + [r['cpu'] for r in recs])


TEX = re.findall(r'\S+', r"""\alpha \Gamma \infty \sum \prod \int \oint \lim \sup \max \sin \frac \binom \dfrac \sqrt \sqrt[ \overline \underline \hat \vec \dot \overbrace \underbrace \overset \underset \left \right
  \middle \left( \right) \left\{ \right. \big \Big( \bigg \text{ \operatorname{ \operatorname* \mathbb{ \mathrm{ \mathbf \mathcal{ \boldsymbol{ \slashed{ \limits \substack{ \not \begin{matrix} \end{matrix} \begin{align} \end{align}
  \begin{cases} \end{cases} \begin{ \end{ \begin{é} \color{ \phantom{ \quad \, \; \! \\ \ \{ \} \| \_ \% \é { } ^ _ & $ % # ~ ' " / ( ) [ ] | . < > a x 1 12.5. .5 é \U0001F980 \u2028 + - = , ; ! ? : * @ `"""
                 .replace('\\U0001F980', '\U0001F980').replace('\\u2028', '\u2028')) + [' ']
CSSBITS = re.findall(r'\S+', r"""a .b #c { } : ; ( ) [ ] " ' url( @media @import @font-face @supports @keyframes @page @charset @namespace @layer @container @property @counter-style @viewport @-moz-document /* */ \ \41 é \U0001F980 % 1 -1 1e9 1.5px calc( var(--x) --x
  !important > + ~ * | ::before :not( :nth-child( 2n+1 and not from to 0% linear-gradient( rgb( hsl( #fff #ffff transform rotate( 1deg grid-template-areas "ab" background inherit width min( max( clamp( , / = $ ^ & < <!-- --> </style u+0-7f
  inset filter blur( display 1fr repeat( minmax( auto-fill attr( env( screen 5dpi infinite NaN cubic-bezier( steps( color-mix( lab( color(display-p3""".replace('\\U0001F980', '\U0001F980')) + [' ', '\n', '@media (min-width:', 'only screen']
CSSPROPS = ('color background font border transform transition animation grid-template-areas grid-area flex margin filter mask width background-position box-shadow text-decoration list-style clip-path overflow aspect-ratio border-radius border-image caret '
            'grid inset src unicode-range text-emphasis grid-auto-flow z-index opacity').split()
# what is known to bring down the libraries (known-findings.txt)
LIBRARIES = ['[[$ \\middle a $]]', '[[module css]]\na{grid-template-areas: ;}\n[[/module]]', '[[module css]]\n' + '@media x{' * 130 + 'a{color:red}' + '}' * 130 + '\n[[/module]]', '[[module css]]\na{width:' + 'calc(' * 22 + '}\n[[/module]]']


def foreign(c, r, n):
    """Mathematics and style sheets, which libraries read."""
    out = [{'op': 'full', 'text': t} for t in LIBRARIES]
    for _ in range(n):
        t = ''.join(r.choice(TEX) + r.choice(['', ' ']) for _ in range(r.randint(1, 8)))
        out.append({'op': 'full', 'text': f'[[math]]\n{t}\n[[/math]]' if r.random() < .7 else f'[[$ {t} $]]'})
        if r.random() < .6:
            t = r.choice(['a', '.b', '@media screen{a', '@supports (x:y){a', '@font-face', '@keyframes k{0%', 'a:hover']) + '{' + ''.join(r.choice(CSSPROPS) + ':' + ' '.join(r.choice(CSSBITS) for _ in range(r.randint(1, 5))) + ';' for _ in range(r.randint(1, 3))) + r.choice(['}', '}', '}}', ''])
        else:
            t = ''.join(r.choice(CSSBITS) + r.choice(['', ' ']) for _ in range(r.randint(1, 12)))
        out.append({'op': 'full', 'text': f'[[module css]]\n{t}\n[[/module]]', 'set': {'minify-css': r.random() < .5}})
    for o, e in [('{', '}'), ('\\frac{', '}{a}'), ('\\left(', '\\right)'), ('\\sqrt{', '}'), ('x^', ''), ('\\begin{matrix}', '\\end{matrix}'), ('\\text{', '}')]:
        for k in (10, 60, 150):
            out.append({'op': 'full', 'text': '[[math]]\n' + o * k + 'x' + e * k + '\n[[/math]]'})
    for o, e in [('a{', '}'), ('a:not(', ')'), ('@media x{', '}'), ('(', ')'), ('[', ']'), ('@supports (', '){}'), ('@layer a{', '}')]:
        for k in (10, 60, 100):
            out.append({'op': 'full', 'text': '[[module css]]\n' + o * k + 'x' + e * k + '\n[[/module]]'})
    return out


def C01(c):
    q = c.quick
    r = c.rng('shapes')
    cs = []
    # shapes: the machine writes them with a few constructs at a time
    for k in range(5 if q else 60):
        # (strings in states have to be ASCII: TLC's queue of states truncates other characters when it goes to disk)
        pairs = r.sample([p for p in PAIRS if p[0].isascii()], 3 if q else 4)
        for name, v in (('CONSTRUCTS', [{'o': a, 'c': b} for a, b in pairs]), ('TIMES', sorted(r.sample([1, 2, 3, 7, 12, 20], 2)) + ([r.choice([33, 50, 99, 100, 101])] if k % 3 == 0 else [])), ('GAPS', r.sample([g for g in GAPS if g.isascii()], 3))):
            with open(os.path.join(c.dir, name), 'w') as f:
                json.dump(v, f)
        got, _ = c.tlc('MCShape', env={'MAXLEN': 4 if q else 5, **{n: os.path.join(c.dir, n) for n in ('CONSTRUCTS', 'TIMES', 'GAPS')}})
        got = sorted({x['text'] for x in got if len(x['text']) <= 1600})
        cs += [shaped(r, t if r.random() < .7 else t.replace('x', r.choice(['é\u2028\U0001F980', '\u00a0', 'ß']))) for t in (r.sample(got, min(len(got), 700 if q else 6000)))]
    # one or two constructs, many times, in every way
    for a, b in PAIRS:
        for n in ([1, 2, 30, 100, 101] if q else [1, 2, 3, 5, 10, 20, 30, 50, 98, 99, 100, 101, 102, 150, 200]):
            n = min(n, 1500 // max(1, len(a + b))) if n > 2 else n
            for t in (a * n, a * n + 'x' + b * n, 'x' + b * n, (a + 'x' + b) * n, a * n + '\n\n' + b * n, '\n' + (a + '\n') * n + b * n):
                if not q or r.random() < .5:
                    cs.append(shaped(r, t[:1600]))
    for _ in range(2500 if q else 60000):
        p = [r.choice(PAIRS) for _ in range(r.choice([1, 2, 2, 3, 4]))]
        n = r.choice([5, 10, 20, 40, 100])
        o = ''.join(a for a, _ in p)
        n = max(1, min(n, 1200 // max(1, len(o))))
        cl = ''.join(b for _, b in reversed(p))
        t = r.choice([o * n, o * n + r.choice(GAPS) + cl * n, o * n + cl * (n - 1), ''.join(a * n for a, _ in p) + r.choice(GAPS) + ''.join(b * n for _, b in reversed(p)), (o + r.choice(GAPS)) * n, (o + r.choice(GAPS)) * n + cl * n, (cl + o) * n, cl * n + o * n])
        cs.append(shaped(r, t[:1600]))
    # everything the other checks are about, and damaged
    cs += checks_html.everything(c, 300 if q else 6000) + pages.usual(c, 1500 if q else 40000, limit=1500)
    bits = docs.gen.MARKS + checks_html.ATOMS + checks_html.BLOCKS + ['\0', '\u200b', '\ufeff', '\u202e', '\U0010ffff', '\u0130', 'ß', '\u0345', '\ud7ff', '\ue000', 'e\u0301' * 5, '\u1e9e']
    cs += [shaped(r, d) for p in checks_html.PLACES for v in ([checks_html.odd(r) for _ in range(4)] if q else [checks_html.odd(r) for _ in range(60)]) for d in [checks_html.fill(p, v, checks_html.odd(r))]]
    # significant characters at every number of bytes, and next to each other, in every place
    places = checks_html.PLACES + [f.replace('%l', '|x') for f in checks_html.FORMS] + [f.replace('%l', '').replace('%s', '!wp:%s') for f in checks_html.FORMS] + ['[wp:%s w]', '[[[%s:x|y]]]', '[[a href="%s:x"]]y[[/a]]', '[%s:x y]', '[[[:%s:x]]]', '[[image %s:x]]', '[[image a.png link="%s:x"]]', '[[[x:%s]]]', '[[iframe %s:x]]']
    for p in places:
        for k in range(13):
            v = 'abcdefghijkl'[:k] + r.choice(['é', '\u2028', '\U0001F980', '\u212a']) + r.choice(['', '', ':x', '/x', '#x', r.choice(checks_html.SEPARATORS) + 'x'])
            cs.append(shaped(r, checks_html.fill(p, v)))
        for v in (r.sample(checks_html.PAIRED, 12) if q else checks_html.PAIRED):
            cs.append(shaped(r, checks_html.fill(p, r.choice(['', 'a', 'é']) + v + r.choice(['', 'b', v]))))
    for v in checks_html.PAIRED + checks_html.SEPARATORS:
        for t in ('[[[!wp:%s|x]]]', '[wp:%s x]', '[[[%s|x]]]', '[[user %s]]', '[[# %s]]', '[[include-elements %s]]{$%s}', '[[a href="%s"]]x[[/a]]', '[[image %s]]', '[[date %s]]', '[[char %s]]'):
            cs.append(shaped(r, checks_html.fill(t, 'U' + v)))
    cs += [shaped(r, d) for d in args.arguments(r, 1000 if q else 20000) + many.numerous(r, 300 if q else 5000, length=4000)]
    for _ in range(600 if q else 10000):
        cs.append(shaped(r, ' '.join(r.choice(checks_html.FORMS).replace('%l', r.choice(checks_html.LABELS)).replace('%s', r.choice(checks_html.TARGETS + ['wp:' + checks_html.odd(r), '!wp:' + checks_html.odd(r)])) for _ in range(r.choice([1, 1, 3])))))
    for _ in range(2500 if q else 60000):
        d = ''.join(r.choice(bits) for _ in range(r.randint(1, 12)))
        for _ in range(r.choice([0, 1, 3])):
            k = r.randint(0, len(d))
            d = d[:k] + r.choice([r.choice(bits), '', '']) + d[k + r.choice([0, 1, 2]):]
        cs.append(shaped(r, d[:1600]))
    odd = ['', ' ', 'é', ':', '/', '#', '%', '"', '<', '\0', '\n', 'a:b', ':s:p', '_default', 'x' * 500, '\u0130', '..', '\U0001F980', 'İ' * 40]
    for _ in range(600 if q else 6000):
        x = shaped(r, '\n\n'.join(r.choice(checks_html.ATOMS + checks_html.BLOCKS) for _ in range(3)))
        x['page'] = {k: r.choice(odd) for k in r.sample(['page', 'category', 'site', 'title', 'alt', 'language'], 3)}
        x['page']['tags'] = r.sample(odd, 3)
        if r.random() < .3:
            x.setdefault('set', {})['interwiki'] = {r.choice(odd): r.choice(odd), 'wp': r.choice(odd)}
        cs.append(x)
    numbers = ['0', '-0', '-1', '1', '00', '255', '256', '65536', '4294967295', '4294967296', '2147483648', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '18446744073709551616', '1e9', '1.5', 'NaN', 'inf', '+5', '٣', '１', '', ' 7 ', '1_000', '0x10', '99999999999999999999999999', '8210266876799', '8210266876800', '-8334601228800', '253402300800', '2020-13-45', '-2020-01-01', '10000-01-01', '2020-02-30', '2020-01-01T25:61:61', '2020-01-01T00:00:00+99:99', '262143-12-31', '-262144-01-01', '-9999-01-01T00:00:00Z', '9999-12-31T23:59:59-25:59']
    for n in numbers:
        for t in ['[[lines %s]]', '[[date %s]]', '[[date %s tz="+5"]]', '[[date 0 tz="%s"]]', '[[date 1500000000 format="%s"]]', '[[char &#%s;]]', '[[char %s]]', '[[char &#x%s;]]', '[[cell colspan="%s"]]', '[[table]][[row]][[cell colspan="%s"]]x[[/cell]][[/row]][[/table]]', '[[module PageTree depth="%s"]]', '[[size %s]]x[[/size]]', '[[embed gitlab-snippet snippet-id="%s"]]', '[[iframe http://f.co/ width="%s"]]', '[[date 2020-01-02 tz="%s"]]', '[[date 253402300799 tz="%s"]]', '[[date -62135596800 tz="%s" format="%%s"]]']:
            cs.append(shaped(r, fill1(t, n)))
    for d in ['%' + ch for ch in 'aAbBcCdDeEfFgGhHIjklmMnNoOpPqQrRsStTuUvVwWxXyYzZ0_-^#+:.3%'] + ['%', '%%', '% ', '%-', '%é', '%9999d', '%:z', '%.f', '%#z', '%10Y', '%%%', '%\u2028']:
        cs.append(shaped(r, f'[[date 1500000000 format="{d}"]]'))
    cs = foreign(c, r, 1500 if q else 60000) + cs
    # including
    inc = []
    for _ in range(1500 if q else 30000):
        inc.append({'op': 'include', 'text': ''.join(r.choice(INCBITS) for _ in range(r.randint(1, 40))), 'pages': dict(INCPAGES), 'fault': r.choice(FAULTS + OWN) if r.random() < .25 else ''})
    for p in ['[[include a', '[[include a ', '\n[[include a]]', '[[include a\n| x=', '[[include ', '[[include a x=1|', 'x = 1 | ', '\n[[include p x={$x}]]', '{$x}', '[[ include ', '\n[[include a x=\n[[include b]]']:
        for n in (1, 10, 60, 100):
            for s, e in (('', ''), ('[[include a ', ']]'), ('', ']]' * n), ('[[include a x=', '\n]]\n')):
                inc.append({'op': 'include', 'text': (s + p * n + e)[:2500], 'pages': dict(INCPAGES), 'fault': ''})
    for i in inc:
        if r.random() < .2:
            i['set'] = {'use-include-compatibility': r.random() < .7}
    cs = pages.unique(cs) + pages.unique(inc)
    for k in many.EVEN:
        cs.append(dict(shaped(r, many.long(k) + r.choice(['', '\n', '\n\nx'])), even=True))
    for i in cs:
        i.pop('want', None)
        if i['op'] == 'full':
            i['want'] = ['html', 'text', 'outcome']
    res = c.run(cs, timeout_ms=30000, stack_kb=4096)
    outcomes(c, cs, res)
    for i in cs:
        c.seen(i['text'][:40])
    c.sample({'text': cs[0]['text'], 'stages': res[0].get('stages')})
    return c.finish(rule='shapes of documents written by the machine (constructs opened once or many times, interrupted, closed in order, crossed, too often, or left open), repeated constructs, compositions and '
                    'damaged documents, extreme numbers and page information, include directives, mathematics and style sheets; every run must pass all stages within the budget', extra={'longest_ms_cpu': c.longest})


def shaped(r, t):
    x = pages.case(t, r)
    if 'include' in t and r.random() < .7:
        x.update(include=True, pages=dict(INCPAGES))
    return x


def fill1(t, v):
    return t.replace('%s', v, 1).replace('%%', '%')
