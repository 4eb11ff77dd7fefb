"""Places where users supply something, and odd strings to put there."""
import themes

PLACES = ['%s', '**%s**', '[[div class="%s"]]\nx\n[[/div]]', '[[div %s="x"]]\nx\n[[/div]]', '[[div data-%s="x"]]\nx\n[[/div]]', '[[div x="y"%s]]\nx\n[[/div]]', '[[span style="%s"]]x[[/span]]', '[[span id="%s"]]x[[/span]]', '[[span title=\'%s\']]x[[/span]]', '##%s|x##', '##red|%s##', '[[size %s]]x[[/size]]', '@@%s@@', '@<%s>@',
          '[!-- %s --]', '[[# %s]]', '[[target %s]]x[[/target]]', '[[[pg|%s]]]', '[[[%s]]]', '[[[%s|x]]]', '[[[pg#%s|x]]]', '[[[:%s:pg|x]]]', '[[[!wp:%s|x]]]', '[[[!%s|x]]]', '[http://e.co/%s x]', '[http://e.co/ %s]', '[%s x]', '[*%s x]', '[#%s x]', '[/%s x]', 'http://e.co/%s', '%s@b.cd', '[[image %s]]', '[[image a.png alt="%s"]]', '[[image a.png link="%s"]]', '[[image p/%s]]', '[[image %s/a.png]]',
          '[[image a.png src="%s"]]', '[[image http://i.co/%s]]', '[[user %s]]', '[[*user %s]]', '[[date 1500000000 format="%s"]]', '[[date 1500000000 tz="%s"]]', '[[date %s]]', '[[char %s]]', '[[$ %s $]]', '[[math]]\n%s\n[[/math]]', '[[math %s]]\nx\n[[/math]]', '[[eref %s]]', '[[footnote]]%s[[/footnote]]', '[[footnoteblock title="%s"]] [[footnote]]x[[/footnote]]', '((bibcite %s))',
          '[[bibliography]]\n: %s : x\n[[/bibliography]]\n((bibcite %s))', '[[bibliography title="%s"]]\n: k : x\n[[/bibliography]]', '[[bibliography]]\n: k : %s\n[[/bibliography]]\n((bibcite k))', '[[code]]\n%s\n[[/code]]', '[[code type="%s"]]\nx\n[[/code]]', '[[code name="%s"]]\nx\n[[/code]]', '[[html]]\n%s\n[[/html]]', '[[iframe http://f.co/%s]]', '[[iframe %s]]', '[[iframe http://f.co/ src="%s"]]', '[[iframe http://f.co/ %s]]',
          '[[module css]]\n%s\n[[/module]]', '[[module css]]\na { content: "%s" }\n[[/module]]', '[[module css]]\na { background: url(%s) }\n[[/module]]', '[[module css]]\n@import "%s";\n[[/module]]', '[[module css]]\n/* %s */ a { b: c }\n[[/module]]', '[[module css]]\n%s { color: red }\n[[/module]]', '[[module css]]\na[b="%s"] { color: red }\n[[/module]]', '[[module css]]\na { --x: %s; }\n[[/module]]', '[[module css]]\n@charset "%s"; @media %s { a { color: red } }\n[[/module]]',
          '[[module Join button="%s" class="%s"]]', '[[module Backlinks page="%s"]]', '[[module %s]]', '[[collapsible show="%s" hide="%s"]]\nx\n[[/collapsible]]', '[[collapsible id="%s"]]\nx\n[[/collapsible]]', '[[tabview]][[tab %s]]x[[/tab]][[/tabview]]', '[[radio %s]]', '[[checkbox name="%s"]]', '[[embed youtube video="%s"]]', '[[embed vimeo video="%s"]]', '[[embed github-gist username="%s" hash="h"]]', '[[embed github-gist username="u" hash="%s"]]', '[[embed gitlab-snippet snippet-id="%s"]]', '[[embed %s]]',
          '[[ruby]]%s[[rt]]%s[[/rt]][[/ruby]]', '[[rb %s|%s]]', '* %s', '> %s', '||%s||', ': %s : %s', '+ %s\n[[toc]]', '[[toc class="%s"]]\n+ h', '[[table class="%s"]][[row class="%s"]][[cell class="%s" colspan="%s"]]x[[/cell]][[/row]][[/table]]', '[[ul class="%s"]][[li class="%s"]]x[[/li]][[/ul]]', '[[a href="%s"]]x[[/a]]', '[[a target="%s"]]x[[/a]]', '[[a name="%s"]]x[[/a]]', '[[*a href="%s"]]x[[/a]]', '[[anchor href="%s"]]x[[/anchor]]', '[[include-elements %s]]',
          '[[include-elements p v="%s"]] {$v}', '{$%s}', '[[lines %s]]', '[[%s]]', '[[/%s]]', '[[%s]]x[[/%s]]', '[[iftags %s]]x[[/iftags]]', '[[hidden class="%s"]]x[[/hidden]]', '[[invisible class="%s"]]%s[[/invisible]]', '[[p class="%s"]]x[[/p]]', '[[div src="%s" href="%s" srcset="%s"]]\nx\n[[/div]]', '[[span background="%s" poster="%s" cite="%s"]]x[[/span]]', '[[=]]\n%s\n[[/=]]', '[[f>image %s]]', '[[image a.png link="*%s"]]', '[[image a.png link=":%s:p"]]', '[[image a.png usemap="%s"]]',
          '[[div aria-%s="x"]]\nx\n[[/div]]', '[[div on%s="x"]]\nx\n[[/div]]', '[[div class="a" CLASS="%s"]]\nx\n[[/div]]', '"%s"', '``%s\'\'', '= %s', '^^%s^^', '[[a href="%s" target="_top"]]%s[[/a]]', '[[a_ href="/%s"]]x[[/a]]', '[[div STYLE="x%s"]]\nx\n[[/div]]']


def fill(place, *values):
    n = place.count('%s')
    vs = [values[i % len(values)] for i in range(n)]
    for v in vs:
        place = place.replace('%s', v, 1)
    return place


WIDE = ['é', 'ß', '\u0130', '\u212a', '\u00a0', '\u2028', '日', '\U0001F980', '\U0001D54F', '\u0345', '\u200b', '\u1e9e', 'ǆ']
SEPARATORS = [':', '/', '#', '%', '.', '"', '|', '=', '_', '-', ' ', "'", ';', ',', '&', '@', '+', '?', '!', '*', '$', '\\']


PAIRED = ['$$', '::', '//', '--', '@@', '..', '...', '{$', '$}', '%%', '""', '\\"', '&#', '&lt;', ']]', '[[', '||', '**', '##', '__', '  ', '``', "''", '!--', ' _', '%20', '<<', '}}', '))', '((', 'u-', '->', '$x', '0x', '1e', '+1']


# blanks as Unicode has them, and characters which only look so
BLANKS = list('\t\x0b\x0c\x85\u1680\u2000\u2003\u2007\u200a\u2028\u2029\u202f\u205f\u3000\u00a0') + list('\u200b\u180e\ufeff\u2060\x1c\x1f\x7f\u200e')


def blank(r):
    return r.choice(BLANKS) * r.choice([1, 1, 1, 2]) + r.choice(['', '', '', ' ', r.choice(BLANKS)])


def spaced(r, docs, n):
    """Places filled with words which odd blanks separate or surround, and documents whose blanks are such."""
    out = []
    while len(out) < n:
        b = lambda: blank(r) if r.random() < .6 else ''
        if r.random() < .6 or not docs:
            w = r.choice(['a', 'tale', 'u-x', 'http://e.co/a', ':s:p', 'p', 'true', '3', 'amp', '#n', '/q', '+tale', 'x=y', 'é'])
            v = b() + w + r.choice(['', b() + r.choice(['b', '+c', '-d', ':e', '#f', '|g', '/h', '="i"']) + b()]) + b()
            out.append(fill(r.choice(PLACES), v, r.choice([v, 'k', b()])))
        else:
            d = r.choice(docs)
            if len(d) < 400:
                out.append(''.join(blank(r) if ch in ' \n' and r.random() < .3 else ch for ch in d))
    return out


def odd(r):
    """A short string whose significant characters stand at any number of bytes from its start."""
    k = r.random()
    if k < .15:
        return ''.join(r.choice(PAIRED + ['a', 'b', 'Q']) for _ in range(r.randint(1, 4)))
    if k < .55:
        return ''.join(r.choice('abDX09') for _ in range(r.randint(0, 12))) + r.choice(WIDE) + ''.join(r.choice(['a', '1'] + WIDE[:8] + SEPARATORS) for _ in range(r.randint(0, 4)))
    return ''.join(r.choice(['a', 'b', 'Q', '7', r.choice(WIDE), r.choice(SEPARATORS), r.choice(SEPARATORS)]) for _ in range(r.randint(1, 8)))


def placed(r, n):
    """Places where users supply something, filled with odd strings, within others or not."""
    out = []
    while len(out) < n:
        p = r.choice(PLACES)
        a, b = r.choice(themes.ENCLOSE) if r.random() < .25 else ('', '')
        out.append(a + fill(p, *((odd(r), r.choice([odd(r), 'x', ''])) if r.random() < .8 else ('', ' '))) + b)
    return out
