"""Characters which something might take for others: blanks, controls, quotes, dots, dashes, look-alikes, and those next to them."""
import unicodedata

NAMED = {c for c in map(chr, range(0x3100)) if unicodedata.category(c) in ('Zs', 'Zl', 'Zp', 'Cc', 'Cf', 'Pi', 'Pf', 'Pd', 'Pc')} | set(map(chr, range(0x2000, 0x2070))) | set('\ufeff\u180e\u2800\u3164\uffa0\ufffc\ufffd\ufffe\uffff\ue000\u0130\u0131\u017f\u212a\u1e9e\ufb01\u00df\u01c4\u0660\u00b2\u2460\uff11\uff21\uff3b\uff3d\uff0a\uff0d\uff5c\uff1a\uff0f\uff03\uff05\uff20\u2217\u2215\u2216\u2236\u02ba\u02bb\u02bc\u02dd\u0300\u0301\u200d\U0001f600\U000e0020\U0001f1e6\U0010ffff\U0001d400\U00020000') | set(map(chr, range(33, 127)))
NAMED |= {chr(ord(c) + d) for c in list(NAMED) for d in (-1, 1) if 0 < ord(c) + d < 0x110000 and not 0xd800 <= ord(c) + d < 0xe000}
NAMED = sorted(c for c in NAMED if c != '\0')


def chars(r, n):
    """Those, and n of all the others."""
    out = list(NAMED)
    while n:
        k = r.choice([r.randrange(0x80, 0x3100), r.randrange(0x80, 0xffff), r.randrange(0x10000, 0x110000)])
        if not 0xd800 <= k < 0xe000:
            out.append(chr(k))
            n -= 1
    return out


# look-alikes of letters, which some comparisons that ignore case take for them
ALIKE = {'s': '\u017f', 'k': '\u212a', 'i': '\u0131\u0130', 'K': '\u212a', 'S': '\u017f', 'f': '\uff46', 'a': '\u00aa\uff41', 'o': '\u00ba', 'e': '\u0435', '1': '\u00b9\uff11', '2': '\u00b2', '3': '\u00b3\u0663', '0': '\uff10\u0660'}


def alike(r, text):
    """One letter or digit exchanged for a look-alike."""
    at = [k for k, x in enumerate(text) if x in ALIKE]
    if not at:
        return text
    k = r.choice(at)
    return text[:k] + r.choice(ALIKE[text[k]]) + text[k + 1:]


def lexed(x):
    return f'a{x}b {x}@e.co a@{x}.co a{x}@e.co http://{x}x.co/{x}y {{${x}}} {{$a{x}}}\n{x}+ h\n+{x}h\n>{x}q\n----{x}\n={x}c\n*{x}a\n||{x}~||\\\n{x}_\n _{x}\n[{x}[a]{x}] ~~~~{x}\n-{x}- [!--{x}--{x}] [[/{x}a'


PLACES = ['[[div class="{x}a{x}" id="{x}a{x}b"]]\n{x}\n[[/div]]', '[[user {x}a{x}b{x}]] [[*user{x}a]]', '[[size {x}1{x}]]y[[/size]]', '[[[{x}p{x}q{x}|{x}l{x}]]] [[[p{x}q]]] [[[#{x}]]]', '[[# {x}n{x}]] [[#{x}n]]', '[[image {x}a.png{x}]]', '[[image a.png alt="{x}b{x}" link="{x}c{x}"]]', '((bibcite {x}a{x})) ((bibcite{x}a))\n[[bibliography]]\n: {x}a{x} : {x}v{x}\n[[/bibliography]]', '[[lines {x}3{x}]]', '[[char {x}amp{x}]]', '[[code type="{x}a{x}"]]\n{x}c{x}\n[[/code]]',
          '[[{x}span{x}]]y[[/span]]', '[[span{x}class="a"]]y[[/span{x}]]', '[[span {x}class{x}={x}"a"{x}]]y[[/span]]', '{x}* a{x}\n*{x}b', ': {x}k{x} : {x}v{x}\n:{x}k : v', '|| {x}a{x} ||{x}\n||~{x}b||', '> {x}a{x}\n>{x}b', '+ {x}h{x}\n+{x}i\n\n[[toc]]', '{x}\n\n{x}\n\ny{x}', '##{x}red{x}|y## ##{x}abc|y##', '@@{x}@@ @<{x}&amp;{x}>@', '[{x}http://a.co{x}b{x}] [/a{x}b] [#a{x}b]', '[[{x}a href="{x}u{x}"]]y[[/a]]', '[[module{x}rate]] [[module {x}rate{x}]]', '[[iftags {x}+tale{x}]]y[[/iftags]]', '[[embed youtube video="{x}v{x}"]]', '[[iframe {x}http://a.co{x}]]',
          '[[tabview]]\n[[tab {x}t{x}]]\n{x}y{x}\n[[/tab]]\n[[/tabview]]', '**{x}b{x}** //{x}i// __u{x}__ --{x}s-- --s{x}-- {{{x}m{x}}}', '[[collapsible show="{x}s{x}" folded="{x}no{x}"]]\ny\n[[/collapsible]]', '[[footnote]]{x}[[/footnote]] [[footnote]]{x}f{x}[[/footnote]]', '[[math{x}n]]\nx\n[[/math]] [[eref{x}n]]', '[[$ {x}a{x} $]]', '[[include-elements {x}p{x}]]', '[!--{x}c{x}--]', '[[html]]{x}h{x}[[/html]]', '[[style]]\n{x}\n[[/style]] [[module css]]\n{x}\n[[/module]]', '[[date{x}0]] [[date 0{x}format="a{x}"]]', '[[checkbox{x}]] [[radio {x}a{x}]]', '[[target {x}a{x}]]y[[/target]]', '[[ul]]{x}[[li]]y[[/li]]{x}[[/ul]]', '[[table]]{x}[[row]]{x}[[cell]]y[[/cell]][[/row]][[/table]]', '[[ruby]]a[[rt]]{x}[[/rt]][[/ruby]]', '[[p]]{x}[[/p]]', '~~~~{x}', '----{x}', 'a {x}_\nb _{x}\nc', '[[[{x}http://a.co{x}|l]]] [[[a:{x}b]]] [[[:{x}s:p]]]', '[!wikipedia:{x}a{x} b] [wikipedia:{x}a{x} b]', '[[>]]{x}[[/>]]', '[[bibliography title="{x}t{x}"]]\n: a : b\n[[/bibliography]]']


def placed(r, n):
    """n texts with such a character somewhere it may matter, and look-alikes of names."""
    out, left = [], []
    for _ in range(n):
        if r.random() < .12:
            out.append(alike(r, r.choice(PLACES).replace('{x}', r.choice(['', ' ']))))
            continue
        left = left or r.sample(NAMED, len(NAMED))
        x = left.pop() if r.random() < .85 else chars(r, 1)[-1]
        t = r.choice(PLACES)
        out.append(t.replace('{x}', x) if r.random() < .6 else ''.join(p + (x if r.random() < .5 else '') for p in t.split('{x}')))
    return out
