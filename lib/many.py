"""Constructs in great numbers: what changes with how many, how long or how deep they are."""
# (before, unit, between, after); {i} is the number of the unit, {l} a letter of it
ROWS = [
    ('', '* a{i}', '\n', ''), ('', '# a{i}', '\n', ''), ('||', 'c{i}', '||', '||'), ('', '|| r{i} ||', '\n', ''), ('||', '', '||', 'x||'), ('', ': k{i} : v{i}', '\n', ''), ('', '> q{i}', '\n', ''), ('', 'line {i}', '\n', ''), ('', 'para {i}', '\n\n', ''), ('', 'w{i}', ' ', ''), ('', '**b{i}**', ' ', ''),
    ('', '//i//**b**', '', ''), ('', '[[footnote]]f{i}[[/footnote]]', ' ', ''), ('', '+ h{i}', '\n', '\n[[toc]]'), ('[[toc]]\n', '++ h{i}\n+++ d', '\n', ''), ('', '[[code]]\nc{i}\n[[/code]]', '\n', ''), ('', '[[html]]\nc{i}\n[[/html]]', '\n', ''), ('', '[[math]]\nx\n[[/math]]', '\n', ''), ('[[bibliography]]\n', ': k{i} : v{i}', '\n', '\n[[/bibliography]]\n((bibcite k9)) ((bibcite k3))'),
    ('', '[[bibliography]]\n: k{i} : v\n[[/bibliography]]\n((bibcite k{i}))', '\n', ''), ('', '((bibcite k))', ' ', '\n\n[[bibliography]]\n: k : v\n[[/bibliography]]'), ('[[div ', 'data-x{i}="v{i}"', ' ', ']]\nx\n[[/div]]'), ('[[div class="', 'c{i}', ' ', '"]]\nx\n[[/div]]'), ('[[div id="', 'c{i}', '-', '"]]\nx\n[[/div]]'), ('[[span style="', 'a:b;', ' ', '"]]x[[/span]]'), ('[[tabview]]', '[[tab t{i}]]x[[/tab]]', '', '[[/tabview]]'),
    ('[[ul]]', '[[li]]i{i}[[/li]]', '', '[[/ul]]'), ('[[table]][[row]]', '[[cell]]c{i}[[/cell]]', '', '[[/row]][[/table]]'), ('[[table]]', '[[row]][[cell]]c{i}[[/cell]][[/row]]', '', '[[/table]]'), ('[[ruby]]', 'x[[rt]]{i}[[/rt]]', '', '[[/ruby]]'), ('', '[[collapsible]]\nx\n[[/collapsible]]', '\n', ''), ('', '[[image a{i}.png]]', '', ''), ('', '[[[pg{i}]]]', ' ', ''), ('', '[[[c:p|x]]]', '\n', ''), ('', 'http://e.co/{i}', ' ', ''), ('', '[[# n{i}]]', '', ''),
    ('', '[[iftags +tale]]', 'x', ''), ('', '[[iftags tale]]y{i}[[/iftags]]', '', ''), ('[[iftags ', '+a{i}', ' ', ']]x[[/iftags]]'), ('', '[[module css]]\na { b: c }\n[[/module]]', '\n', ''), ('', '[[lines {i}]]', '', ''), ('', '----', '\n', ''), ('', '~~~~', '\n', ''), ('', '@@r{i}@@', ' ', ''), ('', '##red|c{i}##', ' ', ''), ('', '[!-- c{i} --]', ' ', ''), ('', '[[user u{i}]]', ' ', ''), ('', '[[checkbox]]', ' ', ''), ('', '[[invisible]]h{i}[[/invisible]]', ' ', ''), ('', '[[=]]\nx\n[[/=]]', '\n', ''),
    ('', '= c{i}', '\n', ''), ('', '**', ' ', ''), ('', '[[div]]', '\n', ''), ('', '[[/div]]', '\n', ''), ('', '[[nope]]', ' ', ''), ('', '//', 'x', ''), ('', '{{', 'x', '}}'), ('', '@@', 'x', ''), ('', '[[$ x{i} $]]', ' ', ''), ('', '[[eref e{i}]]', ' ', ''), ('', '[[char amp]]', '', ''), ('', '[[date 1500000000]]', ' ', ''), ('', '[[a href="/p{i}"]]x[[/a]]', ' ', ''), ('', '``q\'\'', ' ', ''), ('', 'x _\n', '', ''), ('', '[[embed youtube video="v{i}"]]', '\n', ''), ('', '[[iframe http://f.co/{i}]]', '\n', ''),
    ('', 'é', '', ''), ('', '\U0001F980', '', ''), ('', 'a', '', ''), ('', 'é', ' ', ''), ('**', 'a', ' ', '**'), ('[[user ', 'a', '', ']]'), ('[[[', 'p', '', ']]]'), ('[[[p|', 'l', '', ']]]'), ('[[# ', 'n', '', ']]'), ('[[code type="', 'n', '', '"]]\nx\n[[/code]]'), ('+ ', 't', '', '\n[[toc]]'), ('[[size ', '1', '', ']]x[[/size]]'), ('##', 'f', '', '|x##'), ('((bibcite ', 'k', '', '))'), ('{$', 'v', '', '}'), ('[[module Join button="', 'n', '', '"]]'), ('[[tab ', 'n', '', ']]x[[/tab]]'), ('[[lines ', '0', '', '5]]'), ('x', '-', '', 'x'), ('', '+', '', ' h'),
    ('', '=', '', ' x'), ('', '\n', '', 'x'), ('x', ' ', '', 'y'), ('x ', '_', '', '\ny'), ('', '|', '', 'x||'), ('', '*', '', ' x'), ('', '>', '', ' x'), ('', '[', '', 'x]]'), ('[[', ']', '', ''), ('', '~', '', ''), ('', '#', '', 'x##'), ('', '.', '', ''), ('', '<', '', 'x>>'), ('', '@', '', 'x'), ('[[include-elements ', 'p', '', ']]'), ('[[include-elements p ', 'v{i}="w{i}"', ' ', ']]'), ('[[target ', 'x', '', ']]y[[/target]]'), ('[[collapsible show="', 's', '', '"]]\nx\n[[/collapsible]]'),
]
DEEP = [
    ('[[div]]\n', '\n[[/div]]'), ('[[span]]', '[[/span]]'), ('[[div_]]', '[[/div]]'), ('**', '**'), ('**//', '//**'), ('[[b]]', '[[/b]]'), ('[[ul]][[li]]', '[[/li]][[/ul]]'), ('[[table]][[row]][[cell]]', '[[/cell]][[/row]][[/table]]'), ('[[collapsible]]\n', '\n[[/collapsible]]'), ('[[tabview]][[tab t]]', '[[/tab]][[/tabview]]'), ('[[footnote]]', '[[/footnote]]'), ('[[=]]\n', '\n[[/=]]'),
    ('##red|', '##'), ('[[size 2]]', '[[/size]]'), ('[[a href="x"]]', '[[/a]]'), ('[[ruby]]x[[rt]]', '[[/rt]][[/ruby]]'), ('[[iftags tale]]', '[[/iftags]]'), ('[[invisible]]', '[[/invisible]]'), ('[[blockquote]]', '[[/blockquote]]'), ('[[target x]]', '[[/target]]'), ('[[p]]', '[[/p]]'), ('||', '||'), ('[[hidden]]', '[[/hidden]]'), ('[[ol]][[li]]', '[[/li]][[/ol]]'), ('{{', '}}'), ('^^,,', ',,^^'), ('--__', '__--'),
]
NUMBERS = [2, 3, 5, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 31, 32, 33, 64, 65, 99, 100, 101, 128, 255, 256, 257]
DEPTHS = [2, 3, 5, 8, 9, 10, 16, 17, 20, 24, 25, 31, 32, 33, 48, 49, 50, 51, 64, 65, 97, 98, 99, 100, 101]


def row(k, n):
    a, u, b, e = ROWS[k]
    return a + b.join(u.replace('{i}', str(i + 1)) for i in range(n)) + e


def nested(k, n, inner='x'):
    a, b = DEEP[k]
    return a * n + inner + b * n


def lists(n, kind='*'):
    return '\n'.join(' ' * i + f'{kind} d{i}' for i in range(n))


def quotes(n):
    return '\n'.join('>' * i + f' d{i}' for i in range(1, n + 1))


def numerous(r, n, most=260, length=3500):
    """n documents of at most that many units and characters."""
    out = []
    while len(out) < n:
        k = r.random()
        if k < .62:
            d = row(r.randrange(len(ROWS)), min(most, r.choice(NUMBERS) + (r.randint(-2, 3) if r.random() < .3 else 0)))
        elif k < .8:
            d = nested(r.randrange(len(DEEP)), min(most, r.choice(DEPTHS)), r.choice(['x', '', '\n* a\n', '[[footnote]]f[[/footnote]]', '\n+ h\n', '[[code]]c[[/code]]']))
        elif k < .9:
            a, b = DEEP[r.randrange(len(DEEP))]
            c, d = DEEP[r.randrange(len(DEEP))]
            m = r.choice(DEPTHS[:17])
            d = (a + c) * m + 'x' + (d + b) * m
        elif k < .95:
            d = lists(r.choice([2, 5, 10, 18, 19, 20, 21, 22, 23, 25, 40]), r.choice('*#'))
        else:
            d = quotes(r.choice([2, 5, 10, 28, 29, 30, 31, 32, 40]))
        if r.random() < .2:
            d += '\n\n' + row(r.randrange(len(ROWS)), r.choice(NUMBERS[:12]))
        if len(d) <= length:
            out.append(d)
    return out


# rows whose units end where everything that began in them ends: long ones take no longer than all their parts
EVEN = [k for k, (_, u, b, _) in enumerate(ROWS) if b and b[0] in '\n ' and len(u) > 1]


def long(k, length=70000):
    a, u, b, _ = ROWS[k]
    return row(k, max(2, length // len((u + b).replace('{i}', '1234'))))
