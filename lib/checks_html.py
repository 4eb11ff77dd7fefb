"""Checks of what is rendered: pages against spec/RenderHtml.tla, and the
machine of spec/Html.tla."""
import os, re
import args, core, docs, gen, held, htmlscan, made, many, norm, pages, themes

# one complete construct for every kind of element and every choice of its arguments
ATOMS = [
    'w', 'é漢 <&>"\'', '**b**', '//i//', '__u__', '^^p^^', ',,q,,', '--s--', '{{m}}', '##red|c##', '##123abc|c##', '[[size 2em]]z[[/size]]', '[[mark]]m[[/mark]]', '[[ins]]n[[/ins]]', '[[del]]d[[/del]]',
    '[[span class="k" id="u-i" style="a:b" title="t&quot;"]]s[[/span]]', '[[hidden class="h"]]hid[[/hidden]]', '[[invisible]]inv **is** é🦀𝕏\n[[/invisible]]', '[[a href="/x" target="_blank"]]an[[/a]]', '[[*a class="q"]]an[[/a]]',
    '[[# nm]]', '[[target tg]]tt[[/target]]', '[[[pg]]]', '[[[*pg|lab]]]', '[[[pg|]]]', '[[[:s:c:p#h|x]]]', '[[[:s:p]]]', '[[[/loc/q| y ]]]', '[[[#anc]]]', '[[[http://e.co/?a=1&b=2|e]]]', '[[[!wp:Q r|w]]]', '[http://e.co/z lab]', '[*/l new]', '[# nowhere]', '[#an here]',
    'http://e.co/bare', 'a@b.cd', '[wp:Z iw]', '[[image a.png]]', '[[image p/a.png alt="x" class="im" link="pg"]]', '[[f>image s/p/a.png link="http://l.co"]]', '[[=image http://i.co/i.png link="*:s:p#h"]]', '[[<image /p/a.png style="s:t"]]',
    '[[ul class="t"]][[li id="r"]]l[[/li]][[li]][[ol]][[li]]m[[/li]][[/ol]][[/li]][[/ul]]', '[[ol]][[li]]o[[/li]][[/ol]]', '[[checkbox checked="1" class="cb"]]', '[[radio grp class="rd"]]', '[[*radio g2]]',
    '[[user U n]]', '[[*user <U>]]', '[[date 1500000000]]', '[[date 2020-01-02T03:04:05 tz="+2" format="%Y" hover="no"]]', '[[date 2020-01-02]]', '[[char amp]]', '[[$ x^2 $]]', '[[$ \\frac{1 $]]', '[[eref E1]]',
    '[[footnote]]fn **b**[[/footnote]]', '((bibcite k))', '[[bibcite_ k]]', '((bibcite none))', '[[rb base|rt]]', '[[ruby class="rb"]]r[[rt class="x"]]t[[/rt]][[/ruby]]', '@@raw <b>@@', '@<&lt;x>@', '{$v}', 'a\nb', '[[lines 3]]', '[[embed youtube video="vid&"]]', '[[embed vimeo video="7"]]',
    '[[embed github-gist username="u" hash="h"]]', '[[embed gitlab-snippet snippet-id="9"]]', '[[module Rate]]', '[[module Backlinks page="p"]]', '[[module Categories]]', '[[module Join]]', '[[module PageTree]]', '[!-- c --]', '--', '<<q>>', 'x _\ny', '"q"',
]
BLOCKS = [
    '[[div class="k" data-x="1"]]\nd\n[[/div]]', '[[div_ id="dd"]]d[[/div]]', '[[blockquote class="bq"]]\nq\n[[/blockquote]]', '[[=]]\nc\n[[/=]]', '[[>]]\nr\n[[/>]]', '[[<]]\nl\n[[/<]]', '[[==]]\nj\n[[/==]]', '= centred', '> q1\n>> q2\n> q3', '* l1\n * l2\n  # l3\n* l4\n# o1',
    ': k1 : v1\n: **k2** : v2', '||~ h1||= c||\n||< l||> r||\n||||w||', '[[table class="tb"]][[row id="rw"]][[cell colspan="2" class="ce"]]x[[/cell]][[hcell]]y[[/hcell]][[/row]][[/table]]', '+ h1', '++ h2 [[footnote]]in h[[/footnote]]', '+++* h3', '[[toc class="tc"]]', '[[f<toc]]', '[[f>toc]]',
    '[[collapsible]]\nco\n[[/collapsible]]', '[[collapsible show="S>" hide="H<" folded="no" hideLocation="both" class="cl"]]\nco\n[[/collapsible]]', '[[collapsible hideLocation="bottom"]]\nco\n[[/collapsible]]', '[[collapsible hideLocation="top" folded="yes"]]\nco\n[[/collapsible]]',
    '[[tabview]]\n[[tab T1]]\nt1\n[[/tab]]\n[[tab T"2]]\nt2\n[[/tab]]\n[[/tabview]]', '[[code]]\nco <d>\n[[/code]]', '[[code type="CsS x" name="nm"]]\nco\n[[/code]]', '[[html]]\n<b>x</b>\n[[/html]]', '[[math]]\nx_1 < y\n[[/math]]', '[[math E1]]\n\\frac{a}{b}\n[[/math]]', '[[math E2]]\n\\bad{\n[[/math]]',
    '[[iframe http://f.co/?a&b width="3" class="if"]]', '[[module css]]\n.a > b { color : red; content: "</style>" }\n[[/module]]', '[[module css]]\n@bad {{{ }\n[[/module]]', '[[footnoteblock]]', '[[footnoteblock title="T<"]]', '[[footnoteblock hide="true"]]',
    '[[bibliography]]\n: k : kv [[footnote]]fb[[/footnote]] http://e.co/bib\n: k2 : v2 ((bibcite k))\n[[/bibliography]]', '[[bibliography title="B&" hide="true"]]\n: k : hv [[[pg]]]\n: h : hh\n[[/bibliography]]', '[[bibliography]]\n: z : zv ((bibcite z)) [[tabview]][[tab x]]y[[/tab]][[/tabview]]\n[[/bibliography]]',
    '~~~~', '~~~~<', '~~~~>', '----', '[[p class="pp"]]para[[/p]]', '[[include-elements inc]]', '[[iftags tale]]\ncond\n[[/iftags]]', 'two\nlines\n\nparas',
]
SETS = [{}, {}, {}, {'use-true-ids': True}, {'use-true-ids': False}, {'isolate-user-ids': True}, {'isolate-user-ids': False}, {'minify-css': False}, {'minify-css': True}, {'allow-local-paths': False}, {'enable-page-syntax': False}]


def composed(r, n, atoms=ATOMS, blocks=BLOCKS, lo=1, hi=5):
    """Documents of complete constructs, some within others."""
    out = []
    for _ in range(n):
        ps = []
        for _ in range(r.randint(lo, hi)):
            d = r.choice(atoms) if r.random() < .45 else r.choice(blocks)
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                a, b = r.choice(themes.ENCLOSE)
                d = a + d + b
            ps.append(d)
        out.append(r.choice(['\n\n', '\n\n', '\n', ' ']).join(ps))
    return out


SPAN = ['', '', ' colspan="2"', ' colspan="3"', ' colspan="12"', ' rowspan="2"', ' colspan="1"', ' colspan="0"', ' class="c" colspan="4"', ' style="a:b"', ' id="i"']


def tables(r, n):
    """Tables whose cells differ in kind, span, alignment and attributes, in both notations."""
    out = []
    for _ in range(n):
        rows = []
        if r.random() < .6:
            for _ in range(r.randint(1, 4)):
                rows.append(''.join('||' * r.choice([1, 1, 1, 2, 2, 3, 5, 11]) + r.choice(['', '', '~', '<', '>', '=', '~=', '~<', '=~']) + r.choice([' a ', 'b', ' **c** ', '', ' ', ' d _\ne '])
                                    for _ in range(r.randint(1, 4))) + '||')
            out.append('\n'.join(rows))
        else:
            for _ in range(r.randint(1, 4)):
                cells = ''
                for _ in range(r.randint(1, 4)):
                    k = r.choice(['cell', 'cell', 'hcell'])
                    cells += '[[%s%s]]%s[[/%s]]' % (k, r.choice(SPAN), r.choice(['a', '', '**b**', '\nc\n\nd\n']), k)
                rows.append('[[row%s]]%s[[/row]]' % (r.choice(['', ' class="r"']), cells))
            out.append('[[table%s]]%s[[/table]]' % (r.choice(['', ' class="t" id="tt"']), r.choice(['', '\n']).join(rows)))
    return out


def twins(r, n, atoms=ATOMS, blocks=BLOCKS):
    """The same constructs again and again, so that nothing of one is left for the next."""
    out = []
    for _ in range(n):
        few = r.sample(atoms + blocks, r.choice([1, 1, 2, 3]))
        out.append('\n\n'.join(r.choice(few) for _ in range(r.randint(2, 5))))
    return out


def everything(c, n, atoms=ATOMS, blocks=BLOCKS, salt='all'):
    """Every construct by itself and in every other, and n compositions, under all settings."""
    r = c.rng(salt)
    ds = atoms + blocks + [a + d + b for d in atoms + blocks for a, b in themes.ENCLOSE if not c.quick or r.random() < .25] + composed(r, n, atoms, blocks)
    return [pages.case(d, r, mode=r.choice(['page', 'page', 'page'] + docs.MODES), set=r.choice(SETS)) for d in ds]


def C17(c):
    q = c.quick
    cs = everything(c, 700 if q else 12000) + pages.usual(c, 500 if q else 9000, limit=400, generated=200 if q else 3000)
    r = c.rng('attrs')
    ds = themes.compose(r, ['attributes', 'media', 'misc', 'interactive'], 400 if q else 5000)
    ds += tables(r, 200 if q else 3000) + twins(r, 200 if q else 4000)
    ds += args.arguments(r, 1200 if q else 12000) + many.numerous(r, 250 if q else 3000, length=1800 if q else 4000)
    cs += [pages.case(d, r, set=r.choice(SETS)) for d in ds] + [pages.case(d) for d in args.single()]
    cs += made.some(c, c.rng('made'), 4000 if q else 60000, r.sample(cs, min(len(cs), 2500)), want=pages.WANT)
    pages.rendered(c, cs, lambda what, want, got: 'the HTML' if what == 'html' else what == 'meta' and 'the description of the page')
    return c.finish(rule='every construct alone and within others, compositions of them, fixtures and generated documents, under varied settings: '
                    'the rendered page is compared, character by character, with what the specification writes for the recorded tree', extra=pages.extent(c))


def C18(c):
    q = c.quick
    cs = everything(c, 900 if q else 15000) + pages.usual(c, 900 if q else 12000, limit=400, generated=300 if q else 4000)
    r = c.rng('hidden')
    cs += [pages.case(d, r) for d in args.arguments(r, 1500 if q else 15000) + many.numerous(r, 150 if q else 2000, length=1800 if q else 4000)]
    inner = ATOMS + BLOCKS
    for _ in range(500 if q else 8000):
        d = r.choice(inner)
        for _ in range(r.choice([1, 1, 2, 3])):
            a, b = r.choice(HIDING)
            d = a + r.choice(['', 'x ']) + d + r.choice(['', ' y', '\n']) + b
        cs.append(pages.case(r.choice(['', 'p ', '\n', '[[lines 2]]', '[[lines 2]]\n']) + d + r.choice(['', ' s', '\n\n[[lines 3]]', '\n'])))
    for x in cs:
        x['want'] = sorted(set(x['want']) | {'partial'})
    cs += made.some(c, c.rng('made'), 5000 if q else 60000, r.sample(cs, min(len(cs), 2500)), want=pages.WANT + ['partial'])
    pages.rendered(c, cs, lambda what, want, got: what == 'text' and 'the text' or what == 'parts' and 'the text of an element by itself')
    return c.finish(rule='every construct alone, within others and within hidden and invisible text; fixtures and generated documents; the rendered text is '
                    'compared with what the specification determines for the recorded tree', extra=pages.extent(c))


HIDING = [('[[invisible]]', '[[/invisible]]'), ('[[invisible]]', '[[/invisible]]'), ('[[hidden]]', '[[/hidden]]'), ('[[ruby]]x[[rt]]', '[[/rt]][[/ruby]]'), ('* ', ''), ('||', '||'), ('> ', ''), (': k : ', ''), ('[[ul]][[li]]', '[[/li]][[/ul]]'),
          ('[[tabview]][[tab L]]', '[[/tab]][[/tabview]]'), ('[[collapsible show="S"]]\n', '\n[[/collapsible]]'), ('[[footnote]]', '[[/footnote]]'), ('[[div]]\n', '\n[[/div]]'), ('+ ', ''), ('[[a]]', '[[/a]]'), ('##red|', '##')]

from places import *  # noqa: E402,F403

# --- injection -------------------------------------------------------------------
PAYLOADS = ['"><script>x</script>', "'><img src=x onerror=y>", '" onclick="e', '\\" onclick=\\"e', "' onclick='e", '&quot; onclick=&quot;e', '</style><script>x', '</code></pre><b>', '--><b>', '<b>', '</span></div></wj-body>', ']]><b>', '&lt;b&gt;', '&#60;b&#62;', '<', '&', '"',
            "'", '>', 'a&b<c>"d\'e', '\\x3cb\\x3e', '</math><b>', '<mtext></mtext>', '</script>', '</iframe>', '<!--', '{$x}', '$$', '\u2028<b>', '＜b＞', '\u00a0<', '\\', '\\\\"', '\\n"', '%22><b>', '//evil.co', 'a"b', 'x onclick=e', '</STYLE >', '</title>', '<svg/onload=e>', '\x01<', 'é"é', '</li></ul>']
SCHEMES = ['javascript:e()', 'JaVaScRiPt:e()', ' javascript:e()', '\tjavascript:e()', 'java\tscript:e()', 'java\nscript:e()', '\x01javascript:e()', 'javascript&colon;e()', 'javascript&#58;e()', 'data:text/html,x', 'DATA:text/html,x', ' data:x', 'vbscript:e()', 'VBScript:e', 'javascript:;', 'javascript:', 'javascript:%0ae',
           '//evil.co/x', '/javascript:e', '#javascript:e', ':javascript:e', 'javascript', 'x:javascript:e', 'jav&#x09;ascript:e', '\u00a0javascript:e', 'javascript\u00a0:e', 'javascript :e', 'java script:e', 'http:javascript:e', 'feed:javascript:e', 'view-source:javascript:e', 'blob:javascript:e', '\u2028javascript:e', '*javascript:e', 'javascript://x%0ae', '"javascript:e', 'jAvascript:e#x', 'data:', 'data', '%6aavascript:e', '*data:x', 'javascript:e/q#h', '/data:x', '_default:javascript:e', 'livescript:e', 'mocha:e',
           'javascript:;e()', 'javascript:;%0ae', 'javascript:; ', ' javascript:;', 'JavaScript:;', 'javascript:;#x', 'javascript:;/x', 'javascript:;javascript:;', '/javascript:;', '#javascript:;', 'javascript:e;', 'data:;', 'data:;base64,x', 'https:javascript:;', 'ftp:', 'mailto', 'http:/x', 'blob', 'chrome:javascript:e', 'irc:e', 'file:e', 'javascript:;?', 'javascript:;;']
LEADS = ['[[a href="%s"]]x[[/a]]', '[[span src="%s"]]x[[/span]]', '[[div cite="%s"]]x[[/div]]', '[%s x]', '[*%s x]', '[[[%s|x]]]', '[[[*%s]]]', '[[[!wp:%s|x]]]', '[[image %s]]', '[[image a.png link="%s"]]', '[[image a.png link="*%s"]]', '[[iframe %s]]', '[[[:s:%s|x]]]', '[[image http://i.co/a src="%s"]]', '[[iframe http://f.co/ src="%s"]]']


def leading(r, n):
    """n documents of many links: the schemes, or what is close to them, in every place whose value is an address."""
    all_ = [p.replace('%s', v) for p in LEADS for v in SCHEMES for v in (v, args.near(r, v), args.near(r, v))]
    r.shuffle(all_)
    return [r.choice(['\n', '\n\n', ' ']).join(all_[k:k + 10]) for k in range(0, len(all_), 10)][:n]


def scan(h):
    """The tags and attributes of a page, with what they are given where it matters."""
    return [[e[0], e[1], sorted((k, v if k in ('href', 'src') else '') for k, v, _ in e[2])] if e[0] == 'o' else e[:2] if e[0] in 'c' else [e[0]]
            for e in htmlscan.events(h) if e[0] != 't']


def C05(c):
    q = c.quick
    r = c.rng('inject')
    cs = []
    for p in PLACES:
        for v in (r.sample(PAYLOADS, 6) if q else PAYLOADS):
            d = fill(p, v)
            cs.append(pages.case(themes.shout(r, d) if r.random() < .15 else d, r if r.random() < .3 else None))
        for v in (r.sample(SCHEMES, 6) if q else SCHEMES):
            d = fill(p, v)
            cs.append(pages.case(themes.shout(r, d) if r.random() < .3 else d, r if r.random() < .3 else None))
        for v in r.sample(PAYLOADS, 2 if q else 12):
            a, b = r.choice(themes.ENCLOSE)
            cs.append(pages.case(a + fill(p, v, r.choice(PAYLOADS), r.choice(SCHEMES)) + b, r))
    where = ['[[image a.png]] [[image p/a.png]]', '[[[pg]]] [[[:s:p]]] [[[pg|]]]', 'x', '[[toc]]\n+ h', '[[user u]]', '[[[#a]]] [[a href="/x"]]y[[/a]]']
    for v in PAYLOADS + SCHEMES:
        for _ in range(1 if q else 6):
            k = {a: v for a in r.sample(['site', 'page', 'title', 'alt', 'language', 'category'], 3)}
            if r.random() < .6:
                k['tags'] = [v, 'tale', v + 'x'][:r.randint(1, 3)]
            cs.append(pages.case(r.choice(where), page=k))
        cs.append(pages.case(r.choice(['[[[!q:z|w]]]', '[q:z w]', '[[[!q:' + v.replace(']', '') + '|w]]]']), set={'interwiki': {'q': r.choice(['', 'http://e.co/']) + v + r.choice(['', '$$'])}}))
    cs += [pages.case(d, r) for d in leading(r, 350 if q else 5000)]
    # attribute names and values of all kinds
    for d in themes.compose(r, ['attributes', 'media', 'body', 'interactive', 'collected'], 500 if q else 6000, 1, 6):
        cs.append(pages.case(d, r))
    ws = lambda: r.choice(PAYLOADS + SCHEMES).replace('\n', ' ')
    g = gen.Grammar(r, word=ws, attr=lambda: r.choice([' class="%s"', ' id="%s"', ' href="%s"', ' src="%s"', ' %s="x"', ' data-%s="y"', ' style="%s"', ' title="%s"']) % ws())
    cs += [pages.case(d, r) for d in (g.doc(2) for _ in range(400 if q else 6000)) if len(d) < 600]
    cs += pages.usual(c, 600 if q else 6000, limit=300, generated=150 if q else 2000)

    def concern(what, want, got):
        if what == 'meta':
            return 'the description of the page'
        if what == 'html' and want != got and scan(want) != scan(got):
            return 'tags or attributes'
    cs, res = pages.rendered(c, cs, concern)
    pages.machine(c, cs, res, 'C05')
    return c.finish(rule='hostile strings in every place a user or the page information can supply, compositions; every page is read by the machine of '
                    'spec/Html.tla (tags, attributes, schemes, escaping) and compared with the specified markup', extra=dict(pages.extent(c), pages_read=c.read))


def C06(c):
    q = c.quick
    r = c.rng('nest')
    cs = everything(c, 700 if q else 12000) + pages.usual(c, 900 if q else 14000, limit=400, generated=300 if q else 4000)
    parts = ['[[li]]x[[/li]]', '[[row]][[cell]]x[[/cell]][[/row]]', '[[cell]]x[[/cell]]', '[[rt]]x[[/rt]]', '[[tab T]]x[[/tab]]', '* x', '||x||', ': k : v', '[[p]]x[[/p]]', '[[div]]x[[/div]]', '\n\n', '[[table]][[row]][[cell]]x[[/cell]][[/row]][[/table]]', '[[iftags tale]]', '[[/iftags]]']
    for a, b in themes.ENCLOSE:
        for a2, b2 in themes.ENCLOSE:
            for p in (r.sample(parts, 2) if q else parts):
                cs.append(pages.case(a + a2 + p + b2 + r.choice(['', ' t', '\n\n']) + b))

    for k, (a, b) in enumerate(held.HOLDERS):
        for d in (r.sample(held.HELD, 14) if q else held.HELD):
            cs.append(pages.case(r.choice(['', 'x ', 'x ', 'x\n', '**x**']) + a + r.choice(['', '', 'v ']) + d + r.choice(['', '', ' w']) + b + r.choice(['', ' z', ' z'])))
        if not q:
            for a2, b2 in held.HOLDERS:
                cs += [pages.case('x ' + a + a2 + d + b2 + b + ' z') for d in r.sample(held.HELD, 8)]

    def concern(what, want, got):
        return what == 'html' and [e[:2] for e in htmlscan.events(want) if e[0] in 'oc'] != [e[:2] for e in htmlscan.events(got) if e[0] in 'oc'] and 'the nesting of the elements'
    cs, res = pages.rendered(c, cs, concern)
    pages.machine(c, cs, res, 'C06')
    ms = made.some(c, c.rng('made'), 1500 if q else 20000, r.sample(cs, min(len(cs), 2000)), want=pages.WANT + ['partial'])
    pages.rendered(c, ms, lambda what, want, got: concern(what, want, got) or what == 'safe' and 'whether elements may be within paragraphs')
    return c.finish(rule='every construct alone and within one or two others, parts out of place, compositions, fixtures; every page is read by the machine of spec/Html.tla '
                    'and its tags compared with the specified markup', extra=dict(pages.extent(c), pages_read=c.read))


NUMBERED = ['[[footnote]]f1[[/footnote]]', '[[footnote]]f2 **b**[[/footnote]]', '((bibcite k))', '((bibcite z))', '[[bibcite_ k2]]', '((bibcite none))', '[[eref E1]]', '[[$ x $]]', '[[span id="q"]]x[[/span]]', 'w', '**b**', '[[[#toc0|x]]]']
NUMBERED_BLOCKS = ['+ h', '++ h2', '+++ h3 ((bibcite k))', '+* no', '+ h [[footnote]]in h[[/footnote]]', '[[toc]]', '[[f>toc]]', '[[footnoteblock]]', '[[footnoteblock title="T"]]', '[[footnoteblock hide="true"]]', '[[math]]\nx\n[[/math]]', '[[math E1]]\ny\n[[/math]]', '[[bibliography]]\n: k : kv\n: k2 : k2v ((bibcite k))\n[[/bibliography]]',
                   '[[bibliography]]\n: z : zv [[footnote]]fz[[/footnote]]\n[[/bibliography]]', '[[bibliography hide="true"]]\n: h : hv [[math]]\nq\n[[/math]]\n: k : kk\n[[/bibliography]]', '[[bibliography]]\n: d : 1\n: d : 2\n: k : again\n[[/bibliography]]', '[[tabview]]\n[[tab a]]\n+ ht\n[[/tab]]\n[[tab b]]\n[[footnote]]ft[[/footnote]]\n[[/tab]]\n[[/tabview]]',
                   '[[footnote]]\n[[math]]\nm\n[[/math]]\n[[/footnote]]', '[[footnote]]\n+ hf\n[[tabview]][[tab x]]y[[/tab]][[/tabview]]\n[[/footnote]]', '[[bibliography]]\n: t : [[tabview]][[tab x]]y[[/tab]][[/tabview]]\n: m : [[math]]\nm\n[[/math]]\n: k : [[collapsible]]\n+ hb\n[[/collapsible]]\n[[/bibliography]]\n((bibcite t)) ((bibcite m)) ((bibcite k))', '* [[footnote]]fl[[/footnote]]', '||[[footnote]]fc[[/footnote]]||~ ((bibcite k))||', '> + q\n> [[footnote]]fq[[/footnote]]']


def numbers(h):
    """What is numbered, identified or referred to."""
    return [[e[1], [(k, v) for k, v, _ in e[2] if k in ('id', 'data-id', 'aria-label', 'aria-controls', 'aria-labelledby', 'data-name') or k == 'href' and v.startswith('#')],
             nxt[1] if 'marker' in e[1] and nxt[0] == 't' else ''] for e, nxt in zip(htmlscan.events(h), htmlscan.events(h)[1:] + [['']]) if e[0] == 'o']


def C07(c):
    q = c.quick
    r = c.rng('numbers')
    ds = composed(r, 1200 if q else 20000, NUMBERED, NUMBERED_BLOCKS, 2, 8)
    ds += [a + x + b + '\n\n' + y + '\n\n' + z for x in NUMBERED_BLOCKS for y in NUMBERED_BLOCKS for a, b in [('', '')] for z in [r.choice(NUMBERED + NUMBERED_BLOCKS)]]
    cs = [pages.case(d, r, set=r.choice([{}, {}, {'use-true-ids': True}, {'use-true-ids': False}, {'isolate-user-ids': False}])) for d in ds]
    cs += everything(c, 100 if q else 3000) if not q else []
    cs += pages.usual(c, 250 if q else 8000, ['collected', 'heading', 'body', 'abandon'], limit=400, generated=50 if q else 3000)
    for x in cs:
        x['want'] = ['pre', 'tokens', 'tree', 'html', 'text']
    cs, res = pages.conform(c, cs, ('toc', 'fns', 'bibs', 'gathered'))

    def concern(what, want, got):
        return what == 'html' and numbers(want) != numbers(got) and 'a number or identifier'
    pages.rendered(c, cs, concern, res)
    pages.machine(c, cs, res, 'C07')
    return c.finish(rule='compositions of everything that is numbered, in and around each other, with and without lists of it; what is gathered is compared with the '
                    'specified parse, the numbers with the specified markup, and every page read by the machine of spec/Html.tla', extra=dict(pages.extent(c), pages_read=c.read))


# --- links --------------------------------------------------------------------------
TARGETS = ['pg', 'Pg Q', 'c:pg', 'C:d:pg', '_default:pg', ':s:pg', ':s:c:pg', ': s : pg', '::pg', ':pg', ': :pg', ':s:', 'pg#h', 'pg/q/r', 'pg/q#h', 'pg#h/q', ':s:pg#h', ':s:pg/q', '#h', '#', '/', '/pg', '/Pg Q/r#h', '//x', 'http://e.co', 'http://e.co/a#b', 'https://e.co/?a=1&b=2', 'mailto:a@b.cd', 'ftp://f', 'HTTP://e.co',
           'javascript:x', 'data:x', '!wp:Q', '!wp:Q r#s', '!zz:Q', '!wp:', '!:Q', '!wp', '!', 'wp:Q', 'é', 'Éa b', '-a-', '__a', 'a__b', 'a.b', 'a@b.cd', 'a--b', 'a::b', 'a:-b', ' pg ', 'pg ', '*pg', '**pg', '', ' ', '"pg"', "a'b", 'a&b', '<b>', 'https:', 'file://x', 'dns:x', 'about:blank', 'a:b:c:d', '/_a', '_a', 'x:_a', '%20', 'a%20b', '?q', 'pg?q=1', '$x', 'SP-ACE  x', 'a|b', ':s', ':s :p', '/a:b', '#a:b', 'javascript:;']
LABELS = ['', '|', '|lab', '| lab ', '|lab|two', '|**b**', '|  ', '|é', '|http://e.co', '|#']
FORMS = ['[[[%s%l]]]', '[[[*%s%l]]]', '[[[ %s %l]]]', '[%s lab]', '[*%s lab]', '[%s  two words ]', '[%s]', '%s', '[[a href="%s"]]an[[/a]]', '[[*a href="%s"]]an[[/a]]', '[[anchor href="%s" target="x"]]an[[/anchor]]', '[[image a.png link="%s"]]', '[[image a.png link="*%s"]]', '[[=image http://e.co/i.png link="%s"]]', '[[iframe %s]]', '[[# %s]]', '[[target %s]]t[[/target]]', '[#%s l]', '[[image %s]]', '[[span href="%s"]]x[[/span]]',
         '[[module Backlinks page="%s"]]', '[[include-elements %s]]', '[[[%s%l', '[[[%s\n%l]]]', '[[footnote]][[[%s%l]]][[/footnote]]', '[[bibliography]]\n: k : [[[%s%l]]]\n[[/bibliography]] ((bibcite k))', '[[bibliography hide="true"]]\n: k : [[[%s%l]]]\n[[/bibliography]] ((bibcite k))', '[[[%s%l]]] [[[%s]]] [http://e.co/2 x] [[[zz]]]', '* [[[%s%l]]]', '[[hidden]][[[%s%l]]][[/hidden]]', '+ [[[%s%l]]]\n[[toc]]', '[[iftags zz]][[[no]]][[/iftags]][[[%s%l]]]',
         '[[tabview]][[tab a]][[[%s%l]]][[/tab]][[tab b]][[[q]]][[/tab]][[/tabview]]', '||[[[%s%l]]]||[[[q]]]||', '[[collapsible]]\n[[[%s%l]]]\n[[/collapsible]]', '**[[[%s%l]]]**', '[[footnote]][[[%s%l]]][[/footnote]] [[footnote]][[[b]]][[/footnote]]\n[[footnoteblock]]']


def links(els):
    return [(n['n'], [a for a in n['a'] if n['n'] != 'image' or a[0].startswith(('link', 'source'))]) for n in pages.walk(els) if n['n'] in ('link', 'anchor', 'anchor-name', 'image', 'email', 'iframe')]


def hrefs(h):
    return [(e[1], [(k, v) for k, v, _ in e[2] if k in ('href', 'src', 'target', 'class', 'data-link-type')], nxt[1] if e[1] == 'a' and nxt[0] == 't' else '')
            for e, nxt in zip(htmlscan.events(h), htmlscan.events(h)[1:] + [['']]) if e[0] == 'o' and e[1] in ('a', 'img', 'iframe')]


def C15(c):
    q = c.quick
    r = c.rng('links')
    # references to pages and interwiki links
    for what, op in (('pageref', 'pageref'), ('interwiki', 'interwiki')):
        want, _ = c.tlc('MCLinks', env={'MAXLEN': (4 if op == 'pageref' else 4) if q else 6, 'WHAT': what})
        ins = [dict(op=op, text=w['s'], set={'interwiki': {'w': 'h:$$/$$', 'p': 'n q', 'pw': '$$', 'wp': '$$$'}}) for w in want]
        for w, i, o in zip(want, ins, c.run(ins)):
            if op == 'pageref':
                exp = {'ok': True, 'ref': {'site': w['r']['site']['v'], 'hassite': w['r']['site']['some'], 'page': w['r']['page']}, 'shown': w['shown']} if w['r']['ok'] else {'ok': False}
            else:
                exp = {'ok': True, 'url': w['r']['v']} if w['r']['some'] else {'ok': False}
            if {k: o.get(k) for k in exp} != exp:
                c.violation(f'{what} {i["text"]!r}: want {exp}, got {o}', i, exp)
        c.traces += len(want)
    cs = []

    def make(form, target, label):
        return form.replace('%l', label).replace('%s', target)
    for f in FORMS:
        for t in (r.sample(TARGETS, 22) if q and f != FORMS[0] else TARGETS):
            for l in (r.sample(LABELS, 2 if f == FORMS[0] else 1) if q else LABELS if '%l' in f else ['']):
                cs.append(pages.case(make(f, t, l), r if r.random() < .3 else None))
    # every scheme, whole and damaged, in every form
    known = sorted(re.findall(r'"([a-z0-9-]+:[/]*)"', open(os.path.join(core.SPEC, 'Text.tla')).read().split('UrlSchemes ==')[1].split('}')[0]))
    for s in known:
        ts = [s + 'x', s + 'e.co/A b#c', s, s.rstrip('/') + 'x', s.upper() + 'x', s.rstrip('/')[:-1] + '6' + s[len(s.rstrip('/')) - 1:] + 'x', 'x' + s + 'x', ' ' + s + 'x', '/' + s + 'x', '*' + s + 'x', s + ':x', s + '//x']
        for f in FORMS:
            for t in (r.sample(ts, 1) + ts[:1] if q else ts):
                cs.append(pages.case(make(f, t, r.choice(LABELS))))
    for _ in range(200 if q else 4000):
        cs.append(pages.case(r.choice([' ', '\n', '\n\n']).join(make(r.choice(FORMS), r.choice(TARGETS), r.choice(LABELS)) for _ in range(r.randint(2, 5))), r))
    al = [':', 'a', 'B', ' ', '/', '#', '_', '-', '|', '*', '!', 'wp:', 'é', '.', '?', '@', 's']
    for _ in range(500 if q else 10000):
        cs.append(pages.case(make(r.choice(FORMS[:9]), ''.join(r.choice(al) for _ in range(r.randint(1, 7))), '|x')))
    maps = [{'q': 'http://e.co/$$'}, {'q': '/pg:$$'}, {'q': 'x$$y$$'}, {'q': 'none', 'wp': 'http://w/$$?'}, {'Q': 'http://up/$$'}, {'q': '#$$'}]
    for m in maps:
        for t in ['!q:z', '!q:z y', '!Q:z', '!wp:z', '!q: z', '!q:', '!q:a:b#c', '!q:é', '!q:$$']:
            cs.append(pages.case('[[[%s|l]]] [[[*%s]]] [%s l]' % (t, t, t[1:]), set={'interwiki': m}))
    cs += pages.usual(c, 500 if q else 9000, ['triple', 'single', 'media'], limit=400, generated=100 if q else 2000)
    cs = [dict(x, want=sorted(set(x['want']) | set(pages.WANT))) for x in cs]
    cs, res = pages.conform(c, cs, lambda why, want, got: why == 'els' and links(want) != links(got))

    def concern(what, want, got):
        if what in ('int', 'ext', 'inc'):
            return {'int': 'the pages linked', 'ext': 'the addresses linked', 'inc': 'the pages included'}[what]
        return what == 'html' and hrefs(want) != hrefs(got) and 'a link'
    pages.rendered(c, cs, concern, res)
    return c.finish(rule='all short references to pages and interwiki links; targets x labels x every construct that links, compositions, fixtures: links in the tree against the '
                    'specified parse, in the page and in the backlinks against the specified rendering', extra=pages.extent(c))
