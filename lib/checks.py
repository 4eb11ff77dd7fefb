"""One function per property; each returns the exit code."""
import itertools, json, os, re
import args, docs, gen, htmlscan, kinds, many, names, pages, special, places, themes
import core
from core import cps, uncps


def want_ok(c, cases, results):
    """Results of the runs which have one; that others take too long, or end the process, is C01's."""
    for a, b in zip(cases, results):
        if b['outcome'] == 'panic':
            c.violation(f'{a["text"]!r:.150} has no result: {b.get("message", "")[:200]}', a, b)
    return [(a, b) for a, b in zip(cases, results) if b['outcome'] == 'ok']


def toks(o):
    return [{'k': t['t'], 'a': t['a'], 'b': t['b'], 's': cps(t['s'])} for t in o['tokens']]


def windows(tokens, r, size=60):
    """Runs of whole lines out of a tokenization: its beginning, its end, and some between."""
    text, n = tokens[1:-1], len(tokens) - 2
    cuts = [0] + [k for k in range(1, n) if text[k]['t'] == 'line-break' and text[k]['s'] == '\n'] + [n]
    starts = [cuts[0], cuts[max(0, len(cuts) - 6)]] + [r.choice(cuts[:-1]) for _ in range(4)]
    for s in starts:
        end = max([k for k in cuts if s < k <= s + size] or [min([k for k in cuts if k > s])])
        if text[end - 1]['b'] - text[s]['a'] > 600:
            continue
        a, b = text[s]['a'], text[end - 1]['b']
        yield a, [dict(tokens[0], a=a, b=a)] + text[s:end] + [dict(tokens[-1], a=b, b=b)]


# pieces from which every token of the lexical grammar, and its near misses, are made
LEXBITS = ['@@', '@<', '>@', '@', '[!--', '--]', 'http://', 'https://', 'ftp://', 'x', 'Ab9', 'é', '🦀', '.', '.c', '{$', '}', '$',
           '"', '"', '\\', '\\"', '\n', '\n\n', '\n\n\n', '\r\n', '\r', ' ', ' ', '  ', '\t', '\u00a0', '[', '[[', '[[[', ']', ']]', ']]]',
           '[*', '[#', '[[#', '[[*', '[[/', '[[$', '$]]', '(', ')', '((', '))', '~', '~~', '~~~', '~~~<', '~~~>', '-', '--', '---',
           '<', '<<', '>', '|', '||', '||<', '||>', '||=', '||~', '=', ':', '_', '__', '+', '++', '+*', '+**', '++++++', '*', '**', '#', '##',
           '//', '/', '^', '^^', ',', ',,', '{{', '}}', '-1', '_a', '!', '%']


def C02(c):
    n = 3 if c.quick else 5
    cases, _ = c.tlc('MCLexer', env={'MAXLEN': n})
    inputs = [{'op': 'tokens', 'text': uncps(x['text'])} for x in cases]
    for x, i, o in zip(cases, inputs, c.run(inputs)):
        if o['outcome'] != 'ok' or toks(o) != x['out']:
            c.violation(f'tokens of {i["text"]!r} are not those of the lexical grammar', i,
                        {'want': x['out'], 'got': o})
    c.seen('mc')
    c.traces += len(cases)
    # recorded tokenizations against the machine
    r = c.rng('docs')
    ds = docs.documents(r, 700 if c.quick else 8000, limit=700)
    ins = []
    for d in ds:
        ins.append({'op': 'tokens', 'text': d})
        if r.random() < .15:
            ins.append({'op': 'tokens', 'text': d.replace('\n', r.choice(['\r\n', '\r', '\n\r\n']))})
        if r.random() < .15:
            ins.append({'op': 'tokens', 'text': ''.join(ch if r.random() > .05 else r.choice('\t"\\@é🦀:~-]>[') for ch in d)})
    ins += [{'op': 'tokens', 'text': d} for d in many.numerous(r, 150 if c.quick else 2000, length=700)]
    ins += [{'op': 'tokens', 'text': special.lexed(x)} for x in special.chars(r, 300 if c.quick else 10000)]
    for _ in range(2500 if c.quick else 30000):
        bits = r.sample(LEXBITS, r.choice([3, 4, 5, 8, len(LEXBITS)]))
        ins.append({'op': 'tokens', 'text': ''.join(r.choice(bits) for _ in range(r.randint(2, 12)))})
    res = want_ok(c, ins, c.run(ins))
    traces = [{'id': k, 'c': cps(i['text']), 'toks': toks(o)} for k, (i, o) in enumerate(res)]
    # long texts: their tokenization does not depend on what stands before, and no token but the blanks of
    # paragraphs goes on in a new line, so that runs of lines have the tokens they have by themselves
    longs = [{'op': 'tokens', 'text': many.long(k).replace(' ', ' é\U0001F980' if r.random() < .5 else ' ')} for k in (many.EVEN if not c.quick else r.sample(many.EVEN, 6))]
    for i, o in want_ok(c, longs, c.run(longs)):
        for a, ts in windows(o['tokens'], r) if len(o['tokens']) > 2 else []:
            res.append((i, {'tokens': ts}))
            raw = i['text'].encode()[a:ts[-1]['b']].decode('utf-8', 'replace')
            traces.append({'id': len(res) - 1, 'c': cps(raw), 'toks': [dict(x, a=x['a'] - a, b=x['b'] - a) for x in toks({'tokens': ts})]})
    _, rej = c.tlc('TraceLexer', traces=traces)
    for x in rej:
        i, o = res[x['id']]
        c.violation(f'token {x["at"]} of a recorded tokenization is not the one of the lexical grammar', i, {'got': o, 'at': x['at']})
    for i, o in res:
        for t in o['tokens']:
            c.seen((t['t'], t['s'] if t['t'] != 'identifier' else ''))
    c.sample({'text': res[3][0]['text'], 'tokens': [(t['t'], t['s']) for t in res[3][1]['tokens']]})
    return c.finish(rule='texts: all over the small alphabets of MCLexer up to the length bound, plus fixtures, '
                    'soup, grammar documents and mutations; distinct = different (token kind, text)')


def C03(c):
    n = 4 if c.quick else 6
    cases, _ = c.tlc('MCPreproc', env={'MAXLEN': n})
    inputs = [{'op': 'prep', 'text': uncps(x['text'])} for x in cases]
    for x, i, o in zip(cases, inputs, c.run(inputs)):
        for k in ('ws', 'out', 'ty'):
            if o['outcome'] != 'ok' or o[k] != uncps(x[k]):
                c.violation(f'preprocessing of {i["text"]!r}: {k}', i, {'want': uncps(x[k]), 'got': o})
                break
        if x['out'] != x['text']:
            c.seen(i['text'])
    c.traces += len(cases)
    r = c.rng('docs')
    ds = docs.documents(r, 300 if c.quick else 4000, limit=500)
    bits0 = ['\r\n', '\r', '\n', '\n\n\n', ' \n', '\t', '\0', '\u00a0', '\u2007', '\\\n', '``', "''", ',,', '`', "'",
            '...', '. . .', '..', '.', ' ', 'x', 'é', '\u2028', '\u0085', '🦀', '\x0b', '\\', '\u3000', '…', '’']
    ins = [{'op': 'prep', 'text': d} for d in ds]
    for b in bits0:
        for n in (7, 8, 9, 16, 17, 33, 65):
            ins.append({'op': 'prep', 'text': r.choice(['', 'x']) + b * n + r.choice(['', 'x', "''"])})
            ins.append({'op': 'prep', 'text': (b + r.choice(bits0)) * n})
    for _ in range(1500 if c.quick else 20000):
        bits = r.sample(bits0, r.choice([3, 4, 6, 10, len(bits0)]))
        ins.append({'op': 'prep', 'text': ''.join(r.choice(bits) for _ in range(r.randint(1, 24)))})
    for _ in range(200 if c.quick else 2000):
        d = r.choice(ds)
        for _ in range(r.randint(1, 5)):
            k = r.randint(0, len(d))
            d = d[:k] + r.choice(bits0) + d[k:]
        ins.append({'op': 'prep', 'text': d})
    for x in special.chars(r, 300 if c.quick else 30000):
        for t in (f'{x}x\n{x}{x}y\n \u00a0{x}z', f'x{x}\n{x}\n{x}\n\ny', f'{x}\n\nx\n\n{x}', f'x{x}\\\ny\\{x}\nz', f'`{x}` `{x}\' \'{x}\' ,{x}, .{x}. .{x}.{x}. `{x}\'\''):
            ins.append({'op': 'prep', 'text': t})
    res = want_ok(c, ins, c.run(ins))
    traces = [{'id': k, 'src': cps(i['text']), 'ws': cps(o['ws']), 'ty': cps(o['ty']), 'out': cps(o['out'])}
              for k, (i, o) in enumerate(res)]
    _, rej = c.tlc('TracePreproc', traces=traces)
    for x in rej:
        i, o = res[x['id']]
        c.violation(f'preprocessing differs {x["why"]}: {i["text"]!r:.200}', i, {'got': o, 'want': uncps(x['want'])})
    for i, o in res:
        if o['out'] != i['text']:
            c.seen(i['text'])
    c.sample(res[-1])
    return c.finish(rule='texts: all over the alphabets of MCPreproc up to the bound, plus fixtures, generated documents and '
                    'strings of substitution-relevant pieces; non-trivial = changed by preprocessing')


def C16(c):
    """The tree, for everything."""
    q = c.quick
    cs = pages.usual(c, 1500 if q else 16000)
    r = c.rng('small')
    for name in themes.THEMES:
        al = themes.THEMES[name]
        for _ in range(1 if q else 8):
            few = sorted(set(r.sample(al, min(len(al), 5 if q else 6))))
            cs += [pages.case(d) for d in themes.exhaustive(few, 3)]
    cs += [pages.case(d) for d in args.single()]
    cs += [pages.case(d, r) for d in args.arguments(r, 2500 if q else 30000)]
    cs += [pages.case(d, r) for d in many.numerous(r, 150 if q else 2500, length=1200 if q else 3500)]
    cs += [pages.case(d, r) for d in names.written(c, r, 3500 if q else 100000)]
    cs += [pages.case(d) for d in args.values(c, r, 2000 if q else 20000)]
    for _ in range(1 if q else 6):
        cs += [pages.case(d) for d in args.packed(r, per=24 if q else 12)]
    cs += [pages.case(d, r) for d in special.placed(r, 4000 if q else 60000)]
    pages.conform(c, cs, ('els',))
    return c.finish(rule='documents: every block under each of its names, in several casings, with flags, ended in several ways; values of up to 3 characters and escapes between quotes; fixtures, generated, composed of the pieces of every theme, and all sequences of up to 3 of 5-6 pieces; every construct with an argument x values around which its meaning changes; constructs in great numbers and depths; '
                    'distinct = (parent kind, element kind) and (error kind, rule, token) combinations', extra=pages.extent(c))


def C04(c):
    q = c.quick
    cs = pages.usual(c, 2200 if q else 25000, ['abandon', 'abandon', 'collected', 'heading', 'body'], limit=400, generated=400 if q else 5000, lo=3, hi=12)
    r = c.rng('nest')
    # every collected construct inside every construct that is then completed or not
    items = ['[[footnote]]f[[/footnote]]', '\n+ h\n', '[[code]]c[[/code]]', '[[html]]h[[/html]]', '\n[[bibliography]]\n: k : v\n[[/bibliography]]\n', '((bibcite k))', '[[footnoteblock]]']
    for a, b in themes.ENCLOSE + [('[[$', ''), ('[[[', ']]]'), ('@@', '@@'), ('[[b]]', '[[/b]]'), ('__', '__'), ('[[li]]', '[[/li]]'), ('[[rt]]', '[[/rt]]')]:
        for it in items:
            for end in (b, '', '\n\n' + b):
                cs.append(pages.case('x ' + a + it + 'y' + end + ' [[footnote]]z[[/footnote]]'))
                if not q or r.random() < .3:
                    a2, b2 = r.choice(themes.ENCLOSE)
                    cs.append(pages.case(a2 + a + it + 'y' + end + b2 + '\n\n' + r.choice(items)))
    pages.conform(c, cs, ('gathered', 'els', 'html', 'code', 'fns', 'bibs', 'toc'))
    return c.finish(rule='documents in which collected constructs stand inside constructs that are completed, left open or interrupted', extra=pages.extent(c))


def C09(c):
    q = c.quick
    r = c.rng('cond')
    cs = []
    conds = ['+a', '-a', 'a', '+b', '-b', 'b', '+_c', '-_c', '_c', '+', '-', '++a', '+-a', 'A']
    specs = [' '.join(x) for k in range(4) for x in itertools.product(conds[:9], repeat=k)] + [' '.join(x) for x in itertools.product(conds, repeat=2)]
    specs = r.sample(specs, 260 if q else len(specs)) + ['', '  ', ' +a  -b ', 'a,b', '+a, -b', '"a"', 'a\t', '+ a', 'a=b']
    subsets = [[t for k, t in enumerate(['a', 'b', '_c']) if n >> k & 1] for n in range(8)]
    for s in specs:
        for t in (r.sample(subsets, 3) if q else subsets):
            cs.append(pages.case(f'x [[iftags {s}]]y[[/iftags]] z', page={'tags': t}))
    # odd tags, odd marks and odd separators, and many of them; whole words only, each read as the list says
    tags = ['a', 'b', 'A', 'a b', '+a', '-a', '', '+', '-', 'é', 'É', 'e\u0301', 'a+b', 'a-b', 'a,b', '"a"', '_c', '_', 'a_', 'a\u00a0b', 'a\tb', 'ab', '%a', '!a', '\U0001F980', 'a&b', 'a=b', '*', '0']
    gaps = [' '] * 6 + ['\t', '\u00a0', '\u2003', '\u3000', '  ', ',', '+', '-', ' \t', '\u200b', '\x0c', '\x0b', '\u2028', '|', ';']
    for _ in range(500 if q else 15000):
        few = r.sample(tags, r.choice([2, 3, 5, len(tags)]))
        n = r.choice([1, 2, 2, 3, 3, 4, 12, 40])
        s = r.choice(['', '', ' ', '\t']) + ''.join(x + r.choice(gaps) for x in (r.choice(['', '', '+', '+', '-', '-', '++', '--', '+-', '!', '&']) + r.choice(few) for _ in range(n)))
        have = [t for t in few if r.random() < .6] + ([s.strip(' +-')] if r.random() < .2 else [])
        r.shuffle(have)
        if r.random() < .75:
            x = pages.case(f'x [[{r.choice(["iftags", "iftags", "IfTags"])} {s}]]y[[/iftags]] z', page={'tags': have})
        else:
            x = pages.case(f'x [[ifcategory {s}]]y[[/ifcategory]] z', page={'category': r.choice([t for t in few if t] + [None])})
        cs.append(dict(x, nopre=True) if r.random() < .5 else x)
    for s in ['q', '+q', '-q', 'q p', '+q p', '+q -p', '-q -p', '_default', '+_default', '-_default', '', '+', 'p', 'p _default', '+p +q', '-p q', 'Q', 'q:r']:
        for cat in (None, 'q', 'p', '_default', 'q:r', 'Q'):
            cs.append(pages.case(f'x [[ifcategory {s}]]y[[/ifcategory]] z', page={'category': cat}))
    bodies = ['y', '\ny\n', '\n\ny\n\n', '[[footnote]]f[[/footnote]]', '\n+ h\n', '**y**', '[[li]]y[[/li]]', '[[code]]c[[/code]]', '\n* y\n', '||y||', '[[tab x]]y[[/tab]]', '[[row]][[cell]]y[[/cell]][[/row]]',
              '', '[[rt]]y[[/rt]]', '((bibcite k))', '\n[[bibliography]]\n: k : v\n[[/bibliography]]\n', 'y\n\nz', '[[html]]h[[/html]]', '> y', '[[div]]y[[/div]]', '[[cell]]y[[/cell]]']
    around = [('', ''), ('[[ul]]', '[[/ul]]'), ('[[tabview]]', '[[/tabview]]'), ('[[table]]', '[[/table]]'), ('[[ruby]]', '[[/ruby]]'), ('**', '**'), ('[[div]]\n', '\n[[/div]]'), ('* ', ''), ('||', '||'), ('> ', ''),
              ('[[footnote]]', '[[/footnote]]'), ('[[table]][[row]]', '[[/row]][[/table]]'), ('x ', ' z'), ('x\n', '\nz'), ('x\n\n', '\n\nz')]
    for b in bodies:
        for a, e in around:
            for on in ('[[iftags tale]]', '[[iftags zz]]', '[[ifcategory _default]]', '[[ifcategory -_default]]'):
                if not q or r.random() < .6:
                    cs.append(pages.case(a + on + b + '[[/' + on[2:].split()[0] + ']]' + e))
                if r.random() < (.15 if q else 1):
                    o2 = r.choice(['[[iftags +tale]]', '[[iftags -tale]]'])
                    cs.append(pages.case(a + o2 + on + b + '[[/' + on[2:].split()[0] + ']]' + 'w[[/iftags]]' + e))
    cs += pages.usual(c, 600 if q else 10000, ['conditions'], limit=300, generated=0, fix=False)
    pages.conform(c, cs, ('els', 'html', 'code', 'fns', 'bibs', 'toc'))
    return c.finish(rule='conditions x tags/categories (all up to three conditions, sampled when quick; odd tags, marks and separators, up to 40 of them), bodies x surroundings x verdicts, compositions', extra=pages.extent(c))


def C10(c):
    q = c.quick
    r = c.rng('depths')
    cs = []
    # all depth sequences
    n, d = (4, 3) if q else (5, 3)
    lines = [' ' * k + m for k in range(d) for m in '*#']
    for k in range(1, n + 1):
        for x in itertools.product(lines, repeat=k):
            if k < n or not q or r.random() < .5:
                cs.append(pages.case('\n'.join(f'{l} i{j}' for j, l in enumerate(x))))
    for k in range(1, n + 1):
        for x in itertools.product(range(1, 5), repeat=k):
            cs.append(pages.case('\n'.join('>' * w + f' q{j}' for j, w in enumerate(x))))
    for k in range(1, n + 1):
        for x in itertools.product((1, 2, 3, 6), repeat=k):
            cs.append(pages.case('\n'.join('+' * w + f' h{j}' for j, w in enumerate(x))))
    for _ in range(300 if q else 6000):
        kind = r.choice('lqh')
        m = r.randint(3, 14)
        if kind == 'l':
            cs.append(pages.case('\n'.join(' ' * r.choice([0, 0, 1, 1, 2, 3, 5, 9]) + r.choice('*#') + r.choice([' ', ' ', ' ', '  ', '']) + f'i{j}' + r.choice(['', '', '', ' **b**', '@@r@@', '\n']) for j in range(m))))
        elif kind == 'q':
            cs.append(pages.case('\n'.join('>' * r.choice([1, 1, 2, 3, 4, 7]) + r.choice([' ', ' ', '']) + f'q{j}' + r.choice(['', '', ' **b**', '\n']) for j in range(m))))
        else:
            cs.append(pages.case('\n'.join('+' * r.randint(1, 7) + r.choice(['', '', '*']) + f' h{j}' + r.choice(['', '\n', ' [[footnote]]f[[/footnote]]']) for j in range(m))))
    for n in (5, 9, 10, 18, 19, 20, 21, 22, 30):
        for kind in '*#':
            cs.append(pages.case(many.lists(n, kind)))
            cs.append(pages.case(many.lists(n, kind) + '\n' + '\n'.join(reversed(many.lists(n, kind).split('\n')))))
    for n in (5, 10, 28, 29, 30, 31, 32):
        cs.append(pages.case(many.quotes(n)))
        cs.append(pages.case('\n'.join(reversed(many.quotes(n).split('\n')))))
        cs.append(pages.case('>' * n + ' x\n> y\n' + '>' * (n + 1) + ' z'))
    cs += pages.usual(c, 1200 if q else 14000, ['list', 'quote', 'heading', 'listblock'], limit=300, generated=0, fix=False)
    pages.conform(c, cs, ('els', 'toc'))
    return c.finish(rule='all sequences of list lines (depths 0-2, both kinds), quote lines (depths 1-4) and headings (levels 1,2,3,6) up to the bound, longer ones at random', extra=pages.extent(c))


def C11(c):
    q = c.quick
    r = c.rng('marks')
    k = [0]

    def word():
        k[0] += 1
        return f'qz{k[0]}k'
    cs = []
    g = gen.Grammar(r, word=word)
    for _ in range(900 if q else 9000):
        k[0] = 0
        d = g.doc(r.choice([1, 2, 2, 3]))
        if len(d) > 700:
            continue
        if r.random() < .5:
            d = gen.mutate(r, d, None)
        cs.append(pages.case(d, r))
    al = [m for m in gen.MARKS] + ['[[' + n + a + ']]' for n in gen.NAMES for a in ('', ' x')] + ['[[/' + n + ']]' for n in gen.NAMES]
    for _ in range(1500 if q else 20000):
        k[0] = 0
        cs.append(pages.case(''.join(r.choice(al) + r.choice(['', ' ', word() + r.choice(['', ' '])]) for _ in range(r.randint(2, 9))), r))
    cs += pages.usual(c, 1000 if q else 8000, None, limit=400, generated=0)
    cs += [pages.case(d) for d in kinds.between()]
    pages.conform(c, cs, ('els', 'html', 'code', 'fns', 'bibs'))
    return c.finish(rule='documents with numbered words in all places, whole and damaged; compositions of the pieces of every theme', extra=pages.extent(c))


SWITCHED = ['[[image a.png]]', '[[image p/a.png link="#x"]]', '[[image s/p/a.png]]', '[[image /p/a.png]]', '[[image http://i.co/i.png]]', '[[toc]]', '+ a\n[[f<toc]]', '[[module Rate]]', '[[module css]]\na { b: c }\n[[/module]]',
            '[[div id="a u-b"]]\nx\n[[/div]]', '[[# a]] [#a b]', '[[include-elements a]]', '[[include a]]', '[[footnoteblock]]', 'x[[footnote]]y[[/footnote]]', '[[a name="k" id="i"]]x[[/a]]', '[[html]]\nx\n[[/html]]', '[[embed youtube x]]',
            '[[iframe http://f.co/ id="q"]]', '[[user a]]', '[[math]]\na\n[[/math]]', '[[code name="n"]]\nx\n[[/code]]', '[[iftags tale]]a[[/iftags]]']


def C12(c):
    q = c.quick
    r = c.rng('modes')
    switches = ('enable-page-syntax', 'isolate-user-ids', 'use-true-ids', 'allow-local-paths', 'minify-css', 'use-include-compatibility')
    sets = [{}] + [{k: v} for k in switches for v in (True, False)]
    all_sets = [dict(zip(switches, v)) for v in itertools.product((True, False), repeat=6)]
    ds = themes.compose(r, ['body', 'modules', 'heading', 'collected', 'attributes', 'media', 'conditions', 'interactive'], 500 if q else 5000)
    ds += themes.exhaustive(['[[toc]]', '[[module Rate]]', '[[module css]]a{}[[/module]]', '[[iftags tale]]', '[[/iftags]]', '[[footnoteblock]]', 'a\n'], 2)
    cs = []
    for d in ds:
        for m in (docs.MODES if not q else r.sample(docs.MODES, 2)):
            cs.append(pages.case(d, mode=m, set=r.choice(sets if r.random() < .6 else all_sets), layout=r.choice(docs.LAYOUTS)))
    shown = []
    gated = SWITCHED if q else SWITCHED + list(map(''.join, itertools.product(SWITCHED, repeat=2)))
    for d in gated:
        for s in all_sets:
            shown.append(pages.case(d, mode=r.choice(docs.MODES), set=s, layout=r.choice(docs.LAYOUTS)))
    import checks_html
    for d in checks_html.ATOMS + checks_html.BLOCKS:
        for s in r.sample(all_sets, 16 if q else 64):
            shown.append(pages.case(d, mode=r.choice(docs.MODES), set=s, layout=r.choice(docs.LAYOUTS)))
    for x in pages.usual(c, 250 if q else 8000, limit=400, generated=100 if q else 3000):
        shown.append(dict(x, mode=r.choice(docs.MODES), set=r.choice(all_sets), layout=r.choice(docs.LAYOUTS)))
    cs, res = pages.conform(c, cs + shown)
    pages.rendered(c, shown, lambda what, w, g: 'the HTML under these settings' if what == 'html' else '')
    # the documented values of the modes
    st, _ = c.tlc('MCSettings')
    ins = [{'op': 'settings', 'text': '', 'mode': x['mode'], 'layout': x['layout']} for x in st]
    for x, i, o in zip(st, ins, c.run(ins)):
        want = dict(map(tuple, x['switches']), mode=x['mode'], layout=x['layout'], interwiki=dict(map(tuple, x['interwiki'])))
        if o['outcome'] != 'ok' or o['settings'] != want:
            c.violation(f'settings of mode {x["mode"]}', i, {'want': want, 'got': o})
    c.traces += len(st)
    # settings and page information are what they were after being written and read
    maps = [{}, {'a': 'https://a.example/$$'}, {'a': '', '': 'x', 'é "q"': '$$\\\n'}]
    ins = [{'op': 'settings', 'text': '', 'mode': m, 'layout': l, 'set': dict(s, **({'interwiki': r.choice(maps)} if r.random() < .5 else {})),
            'page': {k: r.choice(['', 'a', 'é"漢\\', '_', '🦀\n']) for k in ('page', 'category', 'site', 'title', 'alt', 'language') if r.random() < .6}}
           for m in docs.MODES for l in docs.LAYOUTS for s in all_sets]
    for i in ins:
        if r.random() < .7:
            i['page']['tags'] = r.choice([[], [''], ['a', 'a'], ['é', '"', '_cc']])
    for i, o in zip(ins, c.run(ins)):
        if o['outcome'] != 'ok' or not (o['same'] and o['info'] and o['named']):
            c.violation(f'settings or page information written and read back: {i}', i, o)
    c.traces += len(ins)
    return c.finish(rule='documents of page-level constructs x parse modes x single and combined switches; each gated construct x all combinations of the six switches, every other construct and generated documents x sampled ones, trees and HTML', extra=pages.extent(c))


def C13(c):
    q = c.quick
    cases, _ = c.tlc('MCUtf16', env={'MAXLEN': 4 if q else 6})
    ins = [{'op': 'utf16', 'text': uncps(x['text'])} for x in cases]
    for x, i, o in zip(cases, ins, c.run(ins)):
        if o['outcome'] != 'ok' or [[m['u8'], m['u16']] for m in o['map']] != x['map']:
            c.violation(f'UTF-16 positions of {i["text"]!r}', i, {'want': x['map'], 'got': o})
    c.traces += len(cases)
    cs = pages.usual(c, 1500 if q else 16000, limit=400)
    r = c.rng('wide')
    for x in list(cs):
        if r.random() < .25:
            t = ''.join(ch if r.random() > .08 else r.choice('é€ßж漢') for ch in x['text'])
            cs.append(dict(x, text=t))
    for x in cs:
        x['want'] = ['pre', 'tokens', 'u16', 'tree']
    cs, res = pages.conform(c, cs, ('errs',))
    # positions far into long texts
    for k in [54] + r.sample(many.EVEN, 1 if q else 12):
        x = {'op': 'full', 'text': many.long(k, 35000).replace(' ', r.choice([' ', ' é\U0001F980'])), 'mode': 'page', 'layout': 'wikijump', 'want': ['pre', 'tokens', 'u16', 'tree']}
        cs.append(x)
        res += c.run([x])
    tr = []
    for k, (i, o) in enumerate(zip(cs, res)):
        if o['outcome'] == 'ok':
            tr.append({'id': k, 'c': cps(o['pre']), 'toks': [[t['a'], t['b']] for t in o['tokens']], 'toks16': [[t['a'], t['b']] for t in o['tokens16']],
                       'kinds': [t['t'] for t in o['tokens']],
                       'errs': [[e['span']['start'], e['span']['end'], e['token']] for e in o['errors']],
                       'errs16': [[e['span']['start'], e['span']['end'], e['token']] for e in o['errors16']]})
    _, rej = c.tlc('TraceUtf16', traces=tr)
    for x in rej:
        c.violation(f'{x["why"]} of {cs[x["id"]]["text"]!r:.200}', cs[x['id']], x)
    return c.finish(rule='UTF-16 maps of all short texts of characters of each width; errors of fixtures, generated and composed documents; '
                    'distinct = (error kind, rule, token) and element combinations', extra=pages.extent(c))


def attributes(h):
    """The attributes in a page, tag by tag."""
    return [(e[1], sorted((k, v) for k, v, _ in e[2])) for e in htmlscan.events(h) if e[0] == 'o']


def C19(c):
    q = c.quick
    r = c.rng('attrs')
    cs = []
    # the attributes of an element as an object
    want, _ = c.tlc('MCAttributes', env={'MAXLEN': 3 if q else 4})
    ins = [{'op': 'attributes', 'text': '', 'steps': [h['do'] for h in x['hist']]} for x in want]
    for x, i, o in zip(want, ins, c.run(ins)):
        attrs = x['attrs'] or {}
        if o['outcome'] != 'ok' or o['answers'] != [h['answer'] for h in x['hist']] or any(o[k] != attrs for k in ('attrs', 'written', 'own')):
            c.violation(f'attributes after {i["steps"]}: want {attrs} and {[h["answer"] for h in x["hist"]]}, got {str(o)[:200]}', i, x)
    c.traces += len(want)
    els = ['div', 'span', 'a', 'ul', 'collapsible', 'checkbox', 'p', 'table', 'blockquote', 'b', 'toc', 'image i.png', 'iframe http://f.co/', 'radio g', 'module Join', 'ruby', 'del', 'size 1em']
    keys = sorted(set(re.findall(r'"([a-z]+)"', open(os.path.join(core.SPEC, 'Text.tla')).read().split('SafeAttributes ==')[1].split('UrlAttributes ==')[0])))
    BOOLEANS = set(re.findall(r'"([a-z]+)"', open(os.path.join(core.SPEC, 'Text.tla')).read().split('BooleanAttributes ==')[1].split('==')[0]))
    keys = sorted(set(keys) | BOOLEANS)
    keys += ['onclick', 'onload', 'ONERROR', 'on', 'srcdoc', 'action', 'formaction', 'xlink:href', 'xmlns', 'is', 'slot', 'part', 'nonce', 'integrity', 'crossorigin', 'ping', 'data', 'aria', 'data-', 'aria-', 'data-x', 'aria-label',
             'data-x"', 'data-x y', 'data-é', 'data-A1', 'DATA-x', 'data-x-y-', 'aria-a.b', 'data_x', 'idx', 'clas', 'classs', '', '-', 'manifest', 'http-equiv', 'content', 'charset', 'rel', 'property']
    for k in keys:
        for e in (r.sample(els, 2) if q else els):
            k2 = k if r.random() < .7 else ''.join(ch.upper() if r.random() < .5 else ch for ch in k)
            v = r.choice(['v', 'true', 'False', '', 'u-a', 'a b', ' x ', '/Q', 'javascript:x', 'é', 'YES', '0', '5', 'u-u-a', '&<'])
            cs.append(pages.case(f'[[{e} {k2}="{v}"]]t[[/{e.split()[0]}]]', set={'isolate-user-ids': r.random() < .5}))
    # every name with values of every kind, alone and next to others
    values = ['true', 'false', 'TRUE', 'yes', 'No', '1', '0', '', 'x', ' true ', 't', '#a', '/p', 'a/b#c', 'http://e.co/', 'javascript:x', 'u-a', '50%', 'a b', 'é', '&', '<']
    for k in keys:
        vs = values if not q else r.sample(values, 8 if k in BOOLEANS else 2)
        for v in vs:
            e = r.choice(els)
            k2 = r.choice([k, k, k.upper(), k.title()])
            other = r.choice(['', '', ' %s="%s"' % (r.choice(keys[:80]), r.choice(values)), ' class="c"', ' %s="again"' % k, ' id="i"'])
            cs.append(pages.case(f'[[{e} {k2}="{v}"{other}]]t[[/{e.split()[0]}]]' if r.random() < .7 else f'[[{e}{other} {k2}="{v}"]]t[[/{e.split()[0]}]]', set={'isolate-user-ids': r.random() < .5}, layout=r.choice(docs.LAYOUTS)))
        if k in BOOLEANS or r.random() < .3:
            cs.append(pages.case(f'[[{r.choice(els)} {k}]]t'))
    for d in themes.compose(r, ['attributes'], 1200 if q else 14000) + themes.compose(r, ['media', 'misc', 'single', 'modules'], 300 if q else 4000):
        cs.append(pages.case(d, r, set={'isolate-user-ids': r.random() < .5}))
    ids = ['a', 'u-a', 'u-', 'a  b', ' a', 'u-a u-b', 'U-A', 'é', '', '#', 'u-u-a', 'a\\"b']
    for i in ids:
        for t in ['[[div id="%s"]]x[[/div]]', '[[# %s]]', '[#%s x]', '[[[#%s|x]]]', '[[a name="%s"]]x[[/a]]', '[[target %s]]x[[/target]]', '[[span ID="%s" id="b"]]x[[/span]]', '[[[p#%s]]]', '[[a href="#%s"]]x[[/a]]',
                  '[[table id="%s"]][[row id="%s"]][[cell id="%s"]]x[[/cell]][[/row]][[/table]]', '[[image a.png link="#%s"]]', '[[checkbox id="%s"]]', '[[anchor id="%s"]]x[[/anchor]]', '[[toc id="%s"]]', '[[iframe http://f.co/ id="%s"]]', '[[li id="%s"]]x[[/li]]',
                  '[[ul id="%s"]][[li id="%s"]]x[[/li]][[/ul]]', '[[ruby id="%s"]]a[[rt id="%s"]]b[[/rt]][[/ruby]]', '[[collapsible id="%s"]]x[[/collapsible]]', '[[tabview id="%s"]][[tab x]]x[[/tab]][[/tabview]]', '[[module Join id="%s"]]', '[[radio g id="%s"]]']:
            for iso in (True, False):
                cs.append(pages.case(t.replace('%s', i), set={'isolate-user-ids': iso}))
    for b in places.BLANKS:
        for v in ('a%sb' % b, b + 'a', 'a' + b, 'u-%sa' % b, 'u-a%su-b' % b):
            for t in ['[[div id="%s"]]x[[/div]]', '[[# %s]]', '[[span id = "%s" class="%s"]]x[[/span]]', '[[div' + b + 'id="%s"]]x[[/div]]', '[[checkbox id' + b + '="%s"]]']:
                cs.append(pages.case(t.replace('%s', v), set={'isolate-user-ids': r.random() < .7}))
    cs = [dict(x, want=sorted(set(x['want']) | set(pages.WANT))) for x in cs]
    cs, res = pages.conform(c, cs, ('els',))
    pages.rendered(c, cs, lambda what, w, g: what == 'html' and attributes(w) != attributes(g) and 'the attributes', res)
    return c.finish(rule='every allowed name and near misses x elements x values; identifiers x places x isolation; compositions', extra=pages.extent(c))


from checks_html import *  # noqa: E402,F403
from checks_more import *  # noqa: E402,F403
