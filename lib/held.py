"""Everything which holds inline content or blocks, and what it can hold."""
import themes

HOLDERS = themes.ENCLOSE + [('[[%s]]' % n, '[[/%s]]' % n.split()[0].strip('_*')) for n in
                            ('b', 'i', 'u', 's', 'sub', 'sup', 'mark', 'ins', 'del', 'tt', 'hidden', 'invisible', 'a_ href="/q"', '*a href="/q"', 'span_', 'div_', 'blockquote', 'p', 'size 2', 'ifcategory _default', 'iftags_ tale')] \
    + [('//', '//'), ('__', '__'), ('--', '--'), ('^^', '^^'), (',,', ',,'), ('{{', '}}'), ('[[>]]\n', '\n[[/>]]'), ('[[==]]\n', '\n[[/==]]'), ('[[ol]][[li]]', '[[/li]][[/ol]]'),
       ('[[table]][[row]][[hcell]]', '[[/hcell]][[/row]][[/table]]'), ('[[ruby]]', '[[rt]]y[[/rt]][[/ruby]]'), ('# ', ''), ('||~ ', '||'), (': ', ' : v')]
HELD = ['[[div]]\ny\n[[/div]]', '[[div_]]y[[/div]]', '[[blockquote]]y[[/blockquote]]', '[[p]]y[[/p]]', '[[ul]][[li]]y[[/li]][[/ul]]', '[[table]][[row]][[cell]]y[[/cell]][[/row]][[/table]]', '[[=]]\ny\n[[/=]]', '\n* y\n', '\n||y||\n', '\n> y\n', '\n+ y\n',
        '\n: k : y\n', '\n----\n', '\n~~~~\n', '[[collapsible]]\ny\n[[/collapsible]]', '[[tabview]][[tab T]]y[[/tab]][[/tabview]]', '[[code]]y[[/code]]', '[[math]]y[[/math]]', '[[html]]y[[/html]]', '[[iframe http://f.co/]]', '[[toc]]', '[[footnoteblock]]',
        '\n[[bibliography]]\n: k : y\n[[/bibliography]]\n', '\n\n', 'y', '[[image a.png]]', '[[module Rate]]', '[[footnote]][[div]]y[[/div]][[/footnote]]', '[[include-elements inc]]', '[[iftags tale]][[div]]y[[/div]][[/iftags]]']


def holding(r, n):
    """n documents in which one thing holds another, or one which holds another."""
    out = []
    for _ in range(n):
        d = r.choice(HELD)
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            a, b = r.choice(HOLDERS)
            d = a + r.choice(['', '', 'v ']) + d + r.choice(['', '', ' w', r.choice(HELD)]) + b
        out.append(r.choice(['', '', 'x ', 'x ', 'x\n', '**x**', '\n']) + d + r.choice(['', ' z', ' z', '\n', '\n\nz']))
    return out
