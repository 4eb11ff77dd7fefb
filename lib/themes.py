"""Alphabets of pieces of wikitext, one per theme, from which documents are
composed: exhaustively when short, at random when longer."""
import itertools, re

NL = ['\n', '\n', '\n\n', ' ', 'a', 'b']
ATTR = ['', '', ' class="x"', ' id="y"', ' id="u-y  z"', ' STYLE="c:d"', ' data-x="1"', ' onclick="e()"', ' hidden="true"', ' hidden="FALSE"',
        ' hidden="x"', ' href="/A b"', ' href="javascript:x"', ' src="data:y"', ' class="x" CLASS="z"', ' foo="1"', ' aria-Label="q"',
        ' title="a\\"b"', ' x', ' x=', ' ="v"', ' class=x', ' class = "s p"', '\nclass="n"', ' colspan="2"', ' colspan="0"', ' name="n"',
        ' readonly="yes"', ' translate="no"', ' autoplay="f"', ' data-="e"', ' data-a_b="c"', ' checked="1"', ' type="t"']

THEMES = {
    'emphasis': ['**', '//', '__', '^^', ',,', '--', '~~', '{{', '}}', '@@', '##r|', '##', ' ', ' ', '\n', '\n\n', 'a', 'b'],
    'emphasis2': ['**', '**', '//', '//', 'a', ' ', '\n', '\n\n', '[[b]]', '[[/b]]', '[[span]]', '[[/span]]'],
    'quote': ['> ', '>', '>> ', '>>', '>>> ', '\n> ', '\n>> ', '\n>>> ', '\n', '\n\n', 'a', ' ', '**', '[[div]]', '[[/div]]', '[[footnote]]f[[/footnote]]', '* x', '\n>>>>'],
    'list': ['* ', '# ', '\n* ', '\n# ', '\n * ', '\n # ', '\n  * ', '\n  # ', '\n   * ', '\n    # ', '\n', '\n\n', 'a', ' ', '*', '#', '**', '@@x@@'],
    'table': ['||', '||', '|| ', '||~ ', '||< ', '||> ', '||= ', '||||', ' ||', '||\n', '||\n||', '\n', '\n\n', ' _\n', 'a', ' ', '**', '[[span]]', '[[/span]]', '|'],
    'tableblock': ['[[table]]', '[[/table]]', '[[row]]', '[[/row]]', '[[cell]]', '[[/cell]]', '[[hcell colspan="2"]]', '[[/hcell]]', '[[cell colspan="x" class="k"]]',
                   '[[table class="t"]]', '[[row id="r"]]', '[[table]]\n[[row]]\n[[cell]]\na\n[[/cell]]\n[[/row]]\n[[/table]]', '\n', '\n\n', ' ', 'a', '[[iftags +tale]]', '[[/iftags]]'],
    'listblock': ['[[ul]]', '[[/ul]]', '[[ol]]', '[[/ol]]', '[[li]]', '[[/li]]', '[[ul_]]', '[[li_]]', '[[ul class="t"]]', '[[li id="r"]]', '[[ul]]\n[[li]]a[[/li]]\n[[/ul]]',
                  '\n', '\n\n', ' ', 'a', '* x\n', '[[iftags +tale]]', '[[/iftags]]'],
    'definition': [': ', ':', ' : ', ' :', '\n: ', ': a : b', ': a :b', '\n: c : d', '\n', '\n\n', 'a', ' ', '**', '[[footnote]]f[[/footnote]]', '@@ : @@'],
    'heading': ['+ ', '++ ', '+++ ', '+* ', '++* ', '++++++ ', '+++++++ ', '+', '+*', '\n+ ', '\n++ ', '\n+++* ', '\n', '\n\n', 'a', ' ', '**', '[[toc]]', '[[f>toc]]', '[[<toc]]',
                '[[footnote]]f[[/footnote]]', '= ', '[[eref q]]'],
    'triple': ['[[[', '[[[*', ']]]', '|', 'a', 'Ab c', 'c:p', ':s:p', ':s:c:p', '_default:x', '!wp:Q', '!zz:Q', '!wp', '#h', '/l', 'http://e.co', 'p#h', 'p/q', ':', ' ', '\n', 'é', '**',
               'javascript:x', '::', '|  ', 'missing', 'a@b.cd'],
    'single': ['[', '[*', '[#', ']', 'a', ' ', 'http://e.co/q', '/l', '#', 'x y', '*http://e.co', '\n', '[# ', '[#anc lab]', '[/l lab]', '[http://e.co', ' lab]', '"', 'javascript:x', 'wp:Q', '[[# an]]', '[[#', ']]'],
    'raw': ['@@', '@@', '@<', '>@', '@', '@@@@', '[!--', '--]', 'a', ' ', '\n', '\n\n', '**', '&amp;', '<b>', '  '],
    'blocks': ['[[div]]', '[[/div]]', '[[div_]]', '[[div class="x"]]', '[[p]]', '[[/p]]', '[[blockquote]]', '[[/blockquote]]', '[[=]]', '[[/=]]', '[[<]]', '[[/<]]', '[[>]]', '[[/>]]', '[[==]]', '[[/==]]',
               '\n', '\n\n', '\n', ' ', 'a', 'b', '[[DIV]]', '[[/Div]]', '[[ div ]]', '[[/ div ]]', '[[/div', '[[*div]]', '[[size 2em]]', '[[/size]]', '[[lines 2]]'],
    'inline': ['[[b]]', '[[/b]]', '[[bold]]', '[[/strong]]', '[[i]]', '[[/em]]', '[[u]]', '[[/u]]', '[[s]]', '[[/s]]', '[[sub]]', '[[/sub]]', '[[sup]]', '[[/super]]', '[[mark]]', '[[/highlight]]', '[[ins]]',
               '[[/insertion]]', '[[del]]', '[[/del]]', '[[tt]]', '[[/mono]]', '[[hidden]]', '[[/hidden]]', '[[invisible]]', '[[/invisible]]', '[[a href="/x"]]', '[[/a]]', '[[*a]]', '[[a_]]', '[[span_]]',
               '[[/span]]', '[[anchor]]', '[[/anchor]]', 'a', ' ', '\n', '\n\n'],
    'interactive': ['[[collapsible]]', '[[/collapsible]]', '[[collapsible show="S" hide="H"]]', '[[collapsible folded="no" hideLocation="both"]]', '[[collapsible folded="maybe"]]', '[[collapsible hidelocation="x"]]',
                    '[[tabview]]', '[[/tabview]]', '[[tabs]]', '[[/tabs]]', '[[tab T]]', '[[tab]]', '[[/tab]]', '\n', '\n\n', ' ', 'a', '[[collapsible id="q" SHOW="é"]]', '[[tabview]]\n[[tab x]]a[[/tab]]\n[[/tabview]]'],
    'ruby': ['[[ruby]]', '[[/ruby]]', '[[rt]]', '[[/rt]]', '[[ruby class="r"]]', '[[rubytext id="q"]]', '[[/rubytext]]', '[[rb a|b]]', '[[rb a]]', '[[ruby2 a|b|c]]', 'a', ' ', '\n', '[[span]]', '[[/span]]'],
    'collected': ['[[footnote]]', '[[/footnote]]', '[[footnoteblock]]', '[[footnoteblock title="T"]]', '[[footnoteblock hide="yes"]]', '[[footnoteblock x="1"]]', '[[bibliography]]', '[[/bibliography]]',
                  '[[bibliography title="B" hide="true"]]', '\n: k : v', '\n: k2 : [[footnote]]w[[/footnote]]', '((bibcite k))', '[[bibcite k]]', '[[bibcite_ zz]]', '((bibcite k', '\n', '\n\n', 'a', ' ', '**', '+ h', '\n+ h', '[[div]]', '[[/div]]',
                  '[[code]]c[[/code]]', '[[code name="N"]]c[[/code]]', '[[html]]h[[/html]]', '[[span]]', '||', '[[table]]', '[[toc]]', '> '],
    'abandon': ['[[footnote]]f[[/footnote]]', '[[footnote]]g', '[[/footnote]]', '\n+ h', '\n++ k\n', '[[code]]c[[/code]]', '[[code name="N"]]d[[/code]]', '[[html]]h[[/html]]', '\n[[bibliography]]\n: k : v\n[[/bibliography]]\n',
                '((bibcite k))', '**', '//', '[[div]]', '[[/div]]', '[[table]]', '[[row]]', '[[cell]]', '[[/cell]]', '[[/row]]', '[[/table]]', '[[ul]]', '[[li]]', '[[/li]]', '[[/ul]]', '[[ruby]]', '[[/ruby]]', '[[tabview]]', '[[tab x]]', '[[/tab]]',
                '||', '||\n', '\n||', '\n* ', '\n: a : ', '\n> ', ' : ', '##r|', '##', '[[iftags zz]]', '[[iftags tale]]', '[[/iftags]]', '[[size 1em]]', '[[/size]]', '\n\n', ' ', 'a', '[[p]]', '[[/p]]', '[[footnoteblock]]', '[[a]]', '[[/a]]'],
    'body': ['[[code]]', '[[/code]]', '[[code type="CSS" name="A b"]]', '[[html]]', '[[/html]]', '[[math]]', '[[/math]]', '[[math E1]]', '[[$', '$]]', '[[$ x^2 $]]', '[[eref E1]]', '[[module css]]', '[[/module]]', '[[module CSS]]\na {}\n[[/module]]',
             '\n', '\n\n', ' ', 'a', '**', '@@', '[[div]]', '[[/div]]', '[[/code', 'x_1', '[[/Code]]'],
    'conditions': ['[[iftags tale]]', '[[iftags +tale -zz]]', '[[iftags zz]]', '[[iftags -tale]]', '[[iftags]]', '[[iftags +]]', '[[iftags tale zz +_cc]]', '[[/iftags]]', '[[ifcategory _default]]', '[[ifcategory +_default]]', '[[ifcategory -_default]]',
                   '[[ifcategory q]]', '[[/ifcategory]]', '\n', '\n\n', ' ', 'a', 'b', '[[footnote]]f[[/footnote]]', '\n+ h\n', '[[li]]x[[/li]]', '[[ul]]', '[[/ul]]', '**', '[[div]]', '[[/div]]', '[[IfTags tale]]'],
    'modules': ['[[module Rate]]', '[[module654 rate]]', '[[module Backlinks page="p"]]', '[[module backlinks]]', '[[module Categories includeHidden="yes"]]', '[[module Join button="B" class="j"]]', '[[module PageTree root="r" depth="2" showRoot="t"]]', '[[module PageTree depth="0"]]',
                '[[module Nope]]', '[[module]]', '[[module ListPages x="1"]]', '[[include p]]', '[[include-elements p]]', '[[include-elements :s:p a="1" b="2"]]', '[[include-elements :x]]', '[[/module]]', '[[toc]]', '[[toc class="c"]]', '\n', ' ', 'a', '{$v}', '{$a}'],
    'misc': ['[[user U n]]', '[[*user U]]', '[[user]]', '[[date 1500000000]]', '[[date 2020-01-02 format="%Y" hover="no"]]', '[[date 2020-01-02T03:04:05 tz="+2"]]', '[[date 0 tz="1"]]', '[[date x]]', '[[char amp]]', '[[char &#65;]]', '[[char #x41]]',
             '[[char nope]]', '[[lines 3]]', '[[lines 0]]', '[[lines 101]]', '[[newlines x]]', '[[later]]', '[[*later]]', '[[target t]]', '[[target a b]]', '[[# a]]', '[[#a]]', '[[checkbox]]', '[[*checkbox id="c"]]', '[[radio g]]', '[[*radio g class="q"]]', '[[radio]]',
             '\n', '\n\n', ' ', 'a', '--', '---', '----', '-----', '~~~~', '~~~~<', '~~~~>', '<<', '>>', '_', ' _\n', '_\n', '= ', '=', 'a@b.cd', 'http://e.co/z', '[[size]]', '[[rb a|b]]', '[[embed youtube video="v"]]', '[[embed x]]', '[[embed vimeo]]'],
    'media': ['[[image a.png]]', '[[image p/a.png alt="x"]]', '[[image s/p/a.png link="pg"]]', '[[image /p/a.png link=":s:pg#h"]]', '[[image http://i.co/i.png link="http://l.co"]]', '[[=image a.png]]', '[[<image a.png]]', '[[>image a.png]]', '[[f<image a.png]]', '[[F>IMAGE a.png]]',
              '[[image a/b/c/d.png]]', '[[image]]', '[[image a.png link="*x"]]', '[[image a.png src="/y" class="k" style="q:r"]]', '[[iframe http://f.co/ width="3"]]', '[[iframe /x]]', '[[iframe http://f.co/ src="/y"]]', '[[image a.png link="#t"]]', '\n', ' ', 'a', '[[div]]', '[[/div]]'],
}
THEMES['attributes'] = ['[[%s%s]]' % (n, a) for n in ('div', 'span', 'a', 'li', 'collapsible', 'checkbox', 'image i.png', 'iframe http://f.co/', 'radio g', 'p', 'table', 'row', 'cell', 'ruby', 'toc', 'blockquote', 'b', 'module Join', 'ul', 'include-elements p') for a in ATTR] \
    + ['[[/%s]]' % n for n in ('div', 'span', 'a', 'li', 'collapsible', 'p', 'table', 'row', 'cell', 'ruby', 'blockquote', 'b', 'ul')] * 8 + ['a', '\n', ' '] * 30


def compose(r, names, n, lo=2, hi=10):
    """n documents over the pieces of the given themes."""
    out = []
    for _ in range(n):
        al = THEMES[r.choice(names)]
        if r.random() < .5 and len(al) > 8:
            al = r.sample(al, r.randint(4, 8))
        elif r.random() < .15:
            al = al + THEMES[r.choice(names)]
        out.append(''.join(r.choice(al) for _ in range(r.randint(lo, hi))))
    return out


def exhaustive(pieces, n):
    return [''.join(x) for k in range(n + 1) for x in itertools.product(pieces, repeat=k)]


ENCLOSE = [('[[div]]\n', '\n[[/div]]'), ('**', '**'), ('[[span]]', '[[/span]]'), ('[[footnote]]', '[[/footnote]]'), ('||', '||'), ('* ', ''), ('> ', ''), (': k : ', ''),
           ('[[ul]][[li]]', '[[/li]][[/ul]]'), ('[[table]][[row]][[cell]]', '[[/cell]][[/row]][[/table]]'), ('[[tabview]][[tab x]]', '[[/tab]][[/tabview]]'), ('+ ', ''),
           ('[[iftags tale]]', '[[/iftags]]'), ('[[iftags zz]]', '[[/iftags]]'), ('[[collapsible]]\n', '\n[[/collapsible]]'), ('##red|', '##'), ('[[ruby]]x[[rt]]', '[[/rt]][[/ruby]]'), ('= ', ''),
           ('[[bibliography]]\n: k : ', '\n[[/bibliography]]'), ('[[p]]', '[[/p]]'), ('[[a]]', '[[/a]]'), ('[[size 1em]]', '[[/size]]'), ('[[=]]\n', '\n[[/=]]'), ('[[blockquote]]\n', '\n[[/blockquote]]')]


def enclose(r, d):
    for _ in range(r.choice([1, 1, 2, 3])):
        a, b = r.choice(ENCLOSE)
        if r.random() < .15:
            b = ''
        d = a + d + b
    return r.choice(['', '', 'x ', 'x\n', 'x\n\n', '\n']) + d + r.choice(['', '', ' y', '\ny', '\n\ny'])


def shout(r, d):
    """The document with the names of blocks and attributes in other letter case."""
    def alter(m):
        w = m[0]
        return r.choice([w.upper(), w.lower(), w.title(), ''.join(r.choice([ch.lower(), ch.upper()]) for ch in w)])
    return re.sub(r'(?<=\[\[)[*/]?[a-z]+|(?<=[\s"])[a-z-]+(?==")', lambda m: alter(m) if m[0].isascii() else m[0], d, flags=re.I | re.A)
