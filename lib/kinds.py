"""One text of every kind of token, between every two marks and next to each other."""
KINDS = ['[', '[#', '[*', ']', '[[', '[[/', '[[#', '[[*', '[[$', '((', ']]', '$]]', '))', '--', '---', '-----', '~~', '<<', '~~~~', '~~~<', '~~~~>', '|', '=', ':', '_', '>', '>>', '+', '++', '+*', '\n', '\n\n', ' ', '  ', '**', '//', '__', '^^', ',,', '{{', '}}', '##', '@@', '@<', '>@', '*', '#',
         '[[[', '[[[*', ']]]', '||', '||<', '||>', '||=', '||~', 'a', '7x', 'a@b.cd', 'http://e.co/', 'ftp://f', '{$v}', '"s"', '"', '[!--', '--]', 'é', '!', '@', '\\', '-', '~', '$', '{', '}', '(', ')', '<', '&', "'", '/', '.', '%', '']
MARKS = [('**', '**'), ('//', '//'), ('__', '__'), ('^^', '^^'), (',,', ',,'), ('--', '--'), ('{{', '}}'), ('@@', '@@'), ('@<', '>@'), ('##red|', '##'), ('##', '|x##'), ('[!--', '--]'), ('[[[', ']]]'), ('[[[*', ']]]'), ('[[[p|', ']]]'), ('[[[', '|l]]]'), ('[http://e.co/ ', ']'), ('[/l ', ']'),
         ('[#a ', ']'), ('[#', ']'), ('[*', ' x]'), ('[', ' x]'), ('[[$', '$]]'), ('((bibcite ', '))'), ('((', '))'), ('"', '"'), ('||', '||'), ('||~', '||'), ('\n* ', '\n'), ('\n*', ' x\n'), ('\n', '* x\n'), ('\n> ', '\n'), ('\n>', 'x\n'), ('\n+ ', '\n'), ('\n+', ' x\n'), ('\n= ', '\n'), ('\n: ', ' : v\n'),
         ('\n: k :', 'v\n'), ('\n: k', ': v\n'), ('\n:', 'k : v\n'), ('[[div', ']]\nx\n[[/div]]'), ('[[', 'div]]\nx\n[[/div]]'), ('[[div]]', '[[/div]]'), ('[[div ', '="x"]]y[[/div]]'), ('[[div class', '"x"]]y[[/div]]'), ('[[div class=', ']]y[[/div]]'), ('[[div class="x"', ']]y[[/div]]'), ('[[div]]x[[/', 'div]]'), ('[[div]]x[[/div', ']]'),
         ('[[span]]', '[[/span]]'), ('[[user ', ']]'), ('[[# ', ']]'), ('[[image ', ']]'), ('[[module ', ']]'), ('[[module css]]', '[[/module]]'), ('[[code]]', '[[/code]]'), ('[[math]]', '[[/math]]'), ('[[footnote]]', '[[/footnote]]'), ('[[rb a', '|b]]'), ('[[rb ', '|]]'), ('[[iftags ', ']]x[[/iftags]]'), ('[[lines ', ']]'),
         ('[[ul]]', '[[li]]x[[/li]][[/ul]]'), ('[[ul]][[li]]x[[/li]]', '[[/ul]]'), ('[[table]]', '[[row]][[cell]]x[[/cell]][[/row]][[/table]]'), ('[[row]]', '[[cell]]x[[/cell]][[/row]]'), ('[[tabview]]', '[[tab x]]y[[/tab]][[/tabview]]'), ('[[tabview]][[tab ', ']]y[[/tab]][[/tabview]]'), ('[[ruby]]', '[[rt]]x[[/rt]][[/ruby]]'),
         ('[[ruby]]x[[rt]]', '[[/rt]][[/ruby]]'), ('\n[[bibliography]]', '\n: k : v\n[[/bibliography]]'), ('\n[[bibliography]]\n: k : v\n', '[[/bibliography]]'), ('[[a href="', '"]]x[[/a]]'), ('[[size ', ']]x[[/size]]'), ('[[collapsible]]', '[[/collapsible]]'), ('{$', '}'), ('[[date ', ']]'), ('[[char ', ']]'), ('[[>]]', '[[/>]]'), ('[[', '>]]x[[/>]]'),
         ('a _', '\nb'), ('----', '\nx'), ('~~~~', '\nx')]


def between(r=None, part=1.0):
    """Every kind of token alone between two marks."""
    return [p + a + y + b + s for a, b in MARKS for y in KINDS for p, s in ([('', '')] if r is None else [(r.choice(['', '', 'w ', 'w']), r.choice(['', '', ' z', 'z']))]) if r is None or part >= 1 or r.random() < part]


def among(r, n, most=3):
    """Some tokens of any kinds between two marks, or by themselves."""
    out = []
    for _ in range(n):
        d = ''.join(r.choice(KINDS) for _ in range(r.randint(1, most)))
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            a, b = r.choice(MARKS)
            d = a + d + r.choice(['', '', 'x', ' ']) + b
        out.append(r.choice(['', '', 'w ', 'w', '\n']) + d + r.choice(['', '', ' z', 'z', '\n']))
    return out
