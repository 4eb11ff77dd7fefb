"""Constructs with an argument (%s), each with the values around which its meaning changes."""
BOOL = ['true', 'false', 'True', 'FALSE', 't', 'f', 'T', '1', '0', 'yes', 'no', 'YES', 'nO', 'y', 'n', 'on', 'off', '', ' true', 'true ', '2', '00', 'null', 'truee', 'tru']
HEX = ['', 'a', 'ab', 'abc', 'abcd', 'abcde', 'abcdef', 'abcdef0', 'abcdef01', 'ABC', 'aBCdEf', 'ab9', '000', '000000', 'abg', 'abcdeg', 'g00', ' abc', 'abc ', '#abc', '#abcd', '#abcdef', '##abc', 'a b', 'red', 'add', 'facade', 'beefed', 'fade', 'rgb(1, 2, 3)', 'rgba(10,20,30,0.5)', 'é0f', 'ab\u0660', 'var(--x)', '-abc', 'red; color: blue']
COUNT = ['1', '0', '00', '01', '2', '99', '100', '101', '1000', '255', '256', '65536', '4294967295', '4294967296', '4294967300', '18446744073709551616', '-1', '+1', '+0', ' 3 ', '3x', 'x', '', '1.0', '1 2', '0x1', '\u0663', '1_0']
ENTITY = ['amp', 'lt', 'LT', 'Lt', 'nbsp', 'eacute', 'Eacute', 'EACUTE', '&amp;', '&amp', 'amp;', '&&amp;;', '#65', '#x41', '#X41', '#x1F980', '#129408', '#0', '#x0', '#x110000', '#xD800', '#55296', '#x7f', '#', '#x', '#+65', '#x+41', '#-1', '#065', '#x00041', '# 65', '65', 'x41', '#4294967296', '#x1G', '&#65;', '&#x41;', '&', ';', '&;', '', ' amp ', 'nosuch', 'AMP', 'NotEqualTilde', 'frac12', '#xfeff', '#8232', 'amp lt']
DATES = ['0', '1', '-1', '1500000000', '-1500000000', '+5', '253402300799', '253402300800', '-377705116801', '9223372036854775807', '9223372036854775808', '2001-09-11', '2001-9-11', '2000-02-29', '1999-02-29', '2001-02-29', '2001-00-01', '2001-13-01', '2001-12-31', '2001-12-32', '1899-12-31', '1900-01-01', '9999-12-31', '2007-05-12T09:34:51', '2007-05-12T24:00:00',
         '2007-05-12T23:59:59', '2007-05-12T09:34:51Z', '2007-05-12T09:34:51+04:00', '2007-05-12T09:34:51-04:30', '2007-05-12T09:34:51+00:00', '1600-01-01T00:00:00Z', 'x', '*', 'foobar', '']
ZONES = ['+0', '0', '-0', '8', '+8', '-8', '+08', '8:00', '+08:00', '-08:30', '0800', '+0800', '-0830', '800', '8:0', '8:000', '08:', '+8:', '25:59', '25:60', '26:00', '+24:00', '99', '99:99', '12345', '-12345', '93599', '93600', '123456', '+ 8', ' 8', '8 ', '', 'UTC', 'Z', 'z', '+-8', '2147483648', '00:00', '0000', '23:59', '+0:30', '-0:30', '-1:30', '100', '-100']
SIZES = ['1', '0', '12px', '150%', '1.5em', 'larger', 'xx-small', 'SMALLER', '80%;', '1 2', ' 3px ', '', '"5px"', '5px"', 'a]b', 'é', '&lt;', '10px; color: red']
NAMES = ['a', 'A', 'a b', ' a', 'a ', '', '1', 'é', 'u-a', 'U-a', 'u-', 'a"b', 'a&b', 'a=b', '#a', '-', '_', 'a/b', 'a.b', 'a:b', '&lt;', 'a\tb']
SOURCES = ['a.png', '/a.png', 'pg/a.png', '/pg/a.png', 'st/pg/a.png', '/st/pg/a.png', 'x/st/pg/a.png', '/x/st/pg/a.png', 'st:pg/a.png', 'a', '/', '//', '///', '//a.png', 'pg/', '/pg/', 'pg//a.png', 'st/pg/', 'st//a.png', '//pg/a.png', 'http://i.co/a.png', 'https://i.co/p/a.png', 'HTTP://i.co/a.png', '//i.co/a.png', 'ftp://i.co/a', 'data:image/png;base64,x', 'javascript:x', 'mailto:a', 'a.png?x=1', 'a#b', 'a b.png', ' a.png ', '', 'C:pg/a.png', ':st:pg/a.png', 'PG Q/A.PNG', 'pg/a.png/']
ALIGNS = ['', '=', '<', '>', 'f<', 'f>', 'F<', 'F>', '==', '=>', 'f', 'f=', 'F=', 'F==', '<>', 'f ', '= ', '*', '-', 'ff>', '>f']
TARGETS = ['_blank', '_top', '_self', '_parent', 'blank', 'top', 'self', 'parent', 'new', 'new-tab', '_BLANK', 'Top', '_Self', '', ' _blank', '_', '__blank', 'same', 'x', '_blank ']
DEPTHS = ['', '0', '1', '2', '10', '-1', '+1', '1.5', 'x', ' 1', '1 ', '4294967295', '4294967296', '99999999999999999999', '00', '01']
LANGS = ['', 'rust', 'Rust', 'RUST', 'c++', 'é', ' rust ', 'text', 'none', '"', 'a b', 'php', 'İ', 'HTML']
LOCATIONS = ['top', 'bottom', 'both', 'neither', 'none', 'hide', 'TOP', 'Bottom', 'BoTh', 'Neither', 'None', 'HIDE', '', ' top', 'left', 'true', 'false']
KINDS = ['youtube', 'YouTube', 'YOUTUBE', 'vimeo', 'Vimeo', 'github-gist', 'GitHub-Gist', 'gitlab-snippet', 'gist', 'youtube2', 'you tube', '', ' youtube ', 'youtube_', 'İ']
ROWSPAN = ['1', '0', '2', '12', '-1', '+2', 'x', '', ' 2', '2 ', '4294967295', '4294967296', '01']
CLEARS = ['~~~~', '~~~~<', '~~~~>', '~~~~=', '~~~~~', '~~~~~>', '~~~', '~~~~ ', ' ~~~~', '~~~~x', '~~~~==', '~~~~<>', '~~~~\n~~~~', '~~~~~~~~']
RULES = ['----', '-----', '---', '--', '---- ', ' ----', '----x', '---- x', '----------', '-----\n-----', '----\n\n----', '> ----', '* ----', '——', '----\t']
MODULES = ['CSS', 'css', 'Rate', 'RATE', 'rate', 'Join', 'join', 'JOIN', 'Backlinks', 'backlinks', 'Categories', 'PageTree', 'pagetree', 'page-tree', 'ListPages', 'CountPages', 'x', '', ' ', 'Rate x="y"', 'rate_']
HEADS = ['+', '++', '+++', '++++', '+++++', '++++++', '+++++++', '+*', '++*', '++++++*', '+++++++*', '+ *', '+**', '*+', '++ ', ' +', '+é', '+\t', '\t+']
BULLETS = ['*', '**', '***', '#', '##', '*#', '#*', '* *', ' *', '  *', '  #', '*\t', '\t*', '*é', '-', '*\u00a0', '   #', '\u00a0*']
COLS = ['||', '||||', '||||||', '||~', '||||~', '||=', '||<', '||>', '||||=', '||||>', '||~ ', '|| ~', '||~=', '||=~', '||<>', '||f>', '||>>', '||==']
BLANKS = ['', ' ', '  ', '\t', '\n', '\u00a0', ' \n', '\n\n', ' \t ', ' \n ', '\n ', ' _\n', ' [!-- c --] ', ' [[lines 1]] [[lines 2]]', '[[lines 2]]\n ', ' \n\n ', ' @@@@ ']
WORDS = ['a', 'é', '1', '.', '"', ' ', '', '-', '*', '/', '_', ']', '[', '|', '&', '<', '\n', '@', ':', '\u2019', '=', '>', '#']
WHERES = ['left', 'right', 'center', 'justify', 'Left', '', 'x']

ARGS = [
    ('##%s|x##', HEX), ('##%s| x **y** ##', HEX), ('a##%s|x', HEX), ('[[lines %s]]', COUNT), ('[[newlines %s]] x', COUNT), ('[[LINES %s]]x', COUNT), ('[[char %s]]', ENTITY), ('a[[character %s]]b', ENTITY),
    ('[[date %s]]', DATES), ('[[date %s hover="false"]]', DATES), ('[[date %s tz="+4"]]', DATES), ('[[date 2007-05-12T09:34:51 tz="%s"]]', ZONES), ('[[date 2007-05-12 tz="%s"]]', ZONES), ('[[date 1500000000 tz="%s"]]', ZONES), ('[[date 2007-05-12T00:34:51 hover="%s"]]', BOOL),
    ('[[date 1500000000 hover="%s" format="%%Y %s"]]', BOOL), ('[[size %s]]x[[/size]]', SIZES), ('[[collapsible folded="%s"]]\nx\n[[/collapsible]]', BOOL), ('[[collapsible hideLocation="%s"]]\nx\n[[/collapsible]]', LOCATIONS), ('[[collapsible hide-location="%s" folded="no"]]\nx\n[[/collapsible]]', LOCATIONS),
    ('[[collapsible show="%s"]]\nx\n[[/collapsible]]', NAMES), ('[[collapsible hide="%s" show="s"]]\nx\n[[/collapsible]]', NAMES), ('[[footnoteblock hide="%s"]] [[footnote]]x[[/footnote]]', BOOL), ('[[footnoteblock title="%s"]] [[footnote]]x[[/footnote]]', NAMES), ('[[footnote]]x[[/footnote]]\n[[footnoteblock title="%s" hide="%s"]]', BOOL),
    ('[[bibliography title="%s"]]\n: k : v\n[[/bibliography]]', NAMES), ('[[bibliography hide="%s"]]\n: k : v\n[[/bibliography]]', BOOL), ('[[bibliography]]\n: k : v\n[[/bibliography]]\n((bibcite %s)) ((bibcite k))', NAMES + ['k', ' k ', 'K', 'k)']), ('[[bibliography]]\n: %s : v\n: a : w\n[[/bibliography]]\n((bibcite a))', NAMES),
    ('[[image %s]]', SOURCES), ('[[image /%s alt="x"]]', SOURCES), ('[[%simage a.png]]', ALIGNS), ('[[%simage http://i.co/a.png]]', ALIGNS), ('[[image a.png alignment="%s"]]', ALIGNS + WHERES), ('[[image a.png size="%s"]]', SIZES), ('[[image a.png link="%s"]]', SOURCES), ('[[%stoc]]\n+ h', ALIGNS), ('[[toc]]\n%s h', HEADS),
    ('[[a href="x" target="%s"]]y[[/a]]', TARGETS), ('[[a target="%s"]]y[[/a]]', TARGETS), ('[[*a href="x" target="%s"]]y[[/a]]', TARGETS), ('[[anchor target="%s" name="n"]]y[[/anchor]]', TARGETS), ('[[module PageTree depth="%s"]]', DEPTHS), ('[[module PageTree showRoot="%s"]]', BOOL), ('[[module PageTree root="%s" depth="2"]]', NAMES), ('[[module Categories includeHidden="%s"]]', BOOL),
    ('[[module Backlinks page="%s"]]', NAMES), ('[[module Join button="%s"]]', NAMES), ('[[module %s]]', MODULES), ('[[module654 %s]]', MODULES), ('[[module %s]]\nx { y: z }\n[[/module]]', MODULES), ('[[code type="%s"]]\nx\n[[/code]]', LANGS), ('[[code name="%s"]]\nx\n[[/code]]', NAMES), ('[[code type="%s" name="%s"]]\n\n x \n\n[[/code]]', LANGS),
    ('[[embed %s video="v"]]', KINDS), ('[[embed %s username="u" hash="h"]]', KINDS), ('[[embed %s snippet-id="5"]]', KINDS), ('[[embed youtube video="%s"]]', NAMES), ('[[embed gitlab-snippet snippet-id="%s"]]', NAMES), ('[[embed github-gist username="%s" hash="h"]]', NAMES), ('[[embed github-gist username="u" hash="%s"]]', NAMES),
    ('[[checkbox checked="%s"]]', BOOL), ('[[*checkbox]][[checkbox name="%s"]]', NAMES), ('[[*radio %s]]', NAMES), ('[[radio %s]]', NAMES), ('[[radio n checked="%s"]]', BOOL), ('[[user %s]]', NAMES), ('[[*user %s]]', NAMES), ('[[# %s]]', NAMES), ('[[#%s]]', NAMES), ('[[target %s]]x[[/target]]', NAMES), ('[[iframe %s]]', SOURCES), ('[[iframe http://f.co/ width="%s"]]', SIZES),
    ('[[table]][[row]][[cell colspan="%s"]]x[[/cell]][[/row]][[/table]]', ROWSPAN), ('[[table]][[row]][[hcell colspan="%s" rowspan="%s"]]x[[/hcell]][[/row]][[/table]]', ROWSPAN), ('[[cell rowspan="%s"]]x[[/cell]]', ROWSPAN), ('[[tabview]][[tab %s]]x[[/tab]][[/tabview]]', NAMES), ('[[tabs]][[tab %s]]x[[/tab]][[tab]]y[[/tab]][[/tabs]]', NAMES), ('[[math %s]]\nx\n[[/math]] [[eref a]]', NAMES), ('[[eref %s]] [[math a]]\nx\n[[/math]]', NAMES),
    ('[[rb %s | y]]', NAMES), ('[[rb %s]]', ['|', 'a|', '|b', 'a|b|c', 'a', '', ' | ', ' a | b ', 'é|日']), ('[[ruby]]x[[rt class="%s"]]y[[/rt]][[/ruby]]', NAMES), ('[[span id="%s"]]x[[/span]]', NAMES), ('[[div class="%s"]]\nx\n[[/div]]', NAMES), ('[[div %s="v"]]\nx\n[[/div]]', NAMES + ['ID', 'Class', 'STYLE', 'onclick', 'data-x', 'DATA-X', 'aria-label', 'data-', 'aria-', 'data', 'href', 'xx', 'bgcolor', 'class\t']),
    ('[[span hidden="%s"]]x[[/span]]', BOOL), ('[[span translate="%s"]]x[[/span]]', BOOL + LANGS), ('[[ol start="%s" reversed="%s"]][[li value="%s"]]x[[/li]][[/ol]]', ROWSPAN + BOOL), ('%s', CLEARS), ('x\n%s\ny', CLEARS), ('%s', RULES), ('x\n%s\ny', RULES), ('%s x', HEADS), ('y\n%sx', HEADS), ('%s x', BULLETS), ('y\n%s x\n%s z', BULLETS), ('%sx||y||', COLS), ('||a%sx||\n||b||', COLS),
    ('||a||%s\n||b||', BLANKS), ('||%sa%s||', BLANKS), ('* a%s\n* b', BLANKS), ('+ a%s', BLANKS), ('> a%s\n> b', BLANKS), ('>%sa', BLANKS), ('>>%sa', BLANKS), ('*%sa', BLANKS), (': a%s:%sb', BLANKS), ('=%sa', BLANKS), ('**%sa%s**', BLANKS), ('[[%sdiv%s]]\nx\n[[/%sdiv%s]]', BLANKS), ('[[div %s class%s=%s"a"%s]]\nx\n[[/div]]', BLANKS), ('[[[%sa%s|%sb%s]]]', BLANKS), ('[%shttp://e.co/%sx%s]', BLANKS), ('[[$%sx%s$]]', BLANKS),
    ('@@%sx%s@@', BLANKS), ('@<%s&lt;%s>@', BLANKS), ('##red|%sx%s##', BLANKS), ('##red%s|x##', BLANKS), ('[!--%sx%s--]', BLANKS), ('((bibcite%sk%s))', BLANKS), ('[[#%sa%s]]', BLANKS), ('x%s_%s\ny', BLANKS), ('[[user%sa%s]]', BLANKS), ('[[span]]%sx%s[[/span]]', BLANKS), ('[[div]]%sx%s[[/div]]', BLANKS), ('[[div_]]%sx%s[[/div]]', BLANKS), ('[[collapsible]]%sx%s[[/collapsible]]', BLANKS),
    ('[[code]]%sx%s[[/code]]', BLANKS), ('[[html]]%sx%s[[/html]]', BLANKS), ('[[footnote]]%sx%s[[/footnote]]', BLANKS), ('[[ul]]%s[[li]]%sx[[/li]]%s[[/ul]]', BLANKS), ('[[li]]%sx%s[[/li]]', BLANKS), ('[[ul_]]%s[[li_]]%sx%s[[/li]]%s[[/ul]]', BLANKS), ('[[table]]%s[[row]]%s[[cell]]%sx%s[[/cell]]%s[[/row]]%s[[/table]]', BLANKS), ('[[tabview]]%s[[tab t]]%sx%s[[/tab]]%s[[/tabview]]', BLANKS), ('[[bibliography]]%s: k : v%s[[/bibliography]]', BLANKS), ('[[table]][[row]][[hcell]]%sx%s[[/hcell]][[/row]][[/table]]', BLANKS), ('[[ruby]]%sx%s[[rt]]%sy%s[[/rt]]%s[[/ruby]]', BLANKS), ('[[ruby]]x[[rt]]y[[/rt]]%s[[/ruby]]', BLANKS), (': k%s: v%s\n: l : w%s', BLANKS), ('[[iftags tale]]%sx%s[[/iftags]]', BLANKS), ('[[a]]%sx%s[[/a]]', BLANKS), ('[[=]]%sx%s[[/=]]', BLANKS), ('[[p]]%sx%s[[/p]]', BLANKS), ('[[blockquote]]%sx%s[[/blockquote]]', BLANKS), ('[[size 2]]%sx%s[[/size]]', BLANKS), ('[[hidden]]%sx%s[[/hidden]]', BLANKS), ('[[math]]%sx%s[[/math]]', BLANKS), ('[[module css]]%sa { b: c }%s[[/module]]', BLANKS), ('[[ol]]%s[[li]]x[[/li]]%s[[li]]y[[/li]]%s[[/ol]]', BLANKS), ('[[li]]x%s[[/li]]', BLANKS), ('[[cell]]x%s[[/cell]]', BLANKS),
    ('%s**x**%s', WORDS), ('**%sx%s**', WORDS), ('//%sx%s//', WORDS), ('--%sx%s--', WORDS), ('__%sx%s__', WORDS), ('^^%sx%s^^', WORDS), (',,%sx%s,,', WORDS), ('{{%sx%s}}', WORDS), ('%s--x--%s', WORDS), ('%s//x//%s', WORDS), ('%shttp://e.co/x%s', WORDS), ('%sa@b.cd%s', WORDS), ('[[*%suser x]]', WORDS), ('[*%s x]', ['http://e.co', '/a', '#a', 'a', '']), ('%s{$x}%s', WORDS), ('[[a href="x"%s]]y[[/a]]', WORDS), ('[[div%s]]\nx\n[[/div]]', WORDS), ('[[%sdiv]]\nx\n[[/div]]', WORDS), ('[[/%sdiv]]', WORDS), ('[[div]]\nx\n[[/div%s]]', WORDS),
    ('[[div class="a" class="%s"]]\nx\n[[/div]]', NAMES), ('[[div class="%s" CLASS="b"]]\nx\n[[/div]]', NAMES), ('[[iftags %s]]x[[/iftags]]', ['', '+', '-', 'tale', '+tale', '-tale', '+tale +zz', '-tale -zz', 'tale zz', '-zz +tale', '+ tale', 'TALE', '+_cc', '-_cc', ' tale ', 'tale,zz']), ('[[include-elements %s]]', SOURCES), ('[[include-elements :%s:p]]', NAMES),
]


def fill(t, values):
    """The %s of a template, from left to right; %% is a percent sign."""
    out, k, i = '', 0, 0
    while i < len(t):
        if t.startswith('%s', i):
            out += values[k % len(values)]
            k, i = k + 1, i + 2
        elif t.startswith('%%', i):
            out, i = out + '%', i + 2
        else:
            out, i = out + t[i], i + 1
    return out


def single():
    """Every template with every value."""
    for t, vs in ARGS:
        for v in vs:
            yield fill(t, [v])


ODD = list('!?.,;:"\'-_+*/\\|=<>()[]{}@#$%&^`~') + [' ', '\t', '\u00a0', '\u2003', '\u200b', '\u0301', '\ufeff', '\uff11', 'é', '\U0001F980', '0', '1', 'a', 'Z', '\x7f', '\x0c']


def near(r, v):
    """A value close to v: something put in, taken out, doubled, swapped or in the other case."""
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.choice([0, len(v), len(v), r.randrange(len(v) + 1)])
        k = r.randrange(6)
        if k < 3 or not v:
            v = v[:i] + r.choice(ODD) + v[i:]
        elif k == 3:
            v = v[:i - 1] + v[i:] if i else v[1:]
        elif k == 4:
            v = v[:i] + v[i - 1:] if i else v[0] + v
        else:
            v = v[:i] + v[i:i + 1].swapcase() + v[i + 1:] if i < len(v) else v.swapcase()
    return v


HOLD = ['[[span class="%s"]]x[[/span]]', '[[div style="%s"]]\nx\n[[/div]]', '[[a href="%s"]]x[[/a]]', '[[collapsible show="%s" hide="h"]]\nx\n[[/collapsible]]', '[[image a.png alt="%s" title="t"]]', '[[footnoteblock title="%s"]][[footnote]]x[[/footnote]]', '[[code type="%s"]]\nx\n[[/code]]',
        '[[module Join button="%s"]]', '[[bibliography title="%s"]]\n: k : v\n[[/bibliography]]', '[[embed youtube video="%s"]]', '[[radio n data-x="%s"]]', '[[span id="%s" data-y="%s"]]x[[/span]]', '[[li title="%s"]]x[[/li]]', '[[checkbox checked="%s"]]']


def values(c, r, n):
    """n documents with the values MCValues writes."""
    got, _ = c.tlc('MCValues', {'MAXLEN': 3})
    vs = [x['val'].replace('E', r.choice('éß\u2028\u00a0ü')).replace('W', '\U0001F980') for x in got]
    out = [fill(r.choice(HOLD), [v]) for v in r.sample(vs, min(len(vs), n))]
    while len(out) < n:
        out.append(fill(r.choice(HOLD), [''.join(r.choice(vs) for _ in range(r.randrange(1, 5))) for _ in range(2)]))
    return out


def arguments(r, n):
    """n documents: templates with values, different ones where there are several, or with values of other domains, some within others."""
    import themes
    al = list(single())
    out = r.sample(al, min(len(al), n // 2))
    domains = [vs for _, vs in ARGS]
    while len(out) < n:
        t, vs = r.choice(ARGS)
        if r.random() < .25:
            vs = r.choice(domains)
        d = fill(t, [near(r, r.choice(vs)) if r.random() < .35 else r.choice(vs) for _ in range(4)])
        if r.random() < .3:
            d += r.choice(['', ' ', '\n', '\n\n']) + fill(*(lambda x: (x[0], [r.choice(x[1])]))(r.choice(ARGS)))
        if r.random() < .25:
            a, b = r.choice(themes.ENCLOSE)
            d = a + d + b
        out.append(d)
    return out


PACK = [
    ('[[module Categories includeHidden="%s"]]', ['true', 'false', 'yes', 'no', 't', 'f', '1', '0', 'on', 'off']), ('[[a target="%s"]]y[[/a]]', ['_blank', '_top', 'self', 'parent', 'new-tab']), ('[[collapsible hideLocation="%s"]]\nx\n[[/collapsible]]', ['top', 'bottom', 'both', 'neither']),
    ('[[embed %s video="v" username="u" hash="h" snippet-id="5"]]', ['youtube', 'vimeo', 'github-gist', 'gitlab-snippet']), ('[[%simage a.png]]', ['', '=', '<', '>', 'f<', 'F>']), ('[[%stoc]]', ['', 'f<', 'f>']), ('[[module %s]]', ['CSS', 'Rate', 'Join', 'Backlinks', 'Categories', 'PageTree']),
    ('[[char %s]]', ['amp', '#65', '#x41']), ('##%s|x##', ['abc', 'abcdef', 'red']), ('[[date %s]]', ['15', '-15', '2001-09-11', '2007-05-12T09:34:51', '2007-05-12T09:34:51+04:00']), ('[[date 15 tz="%s"]]', ['8', '+08:00', '-0830']), ('x[[lines %s]]y', ['12']), ('[[module PageTree depth="%s"]]', ['12']),
    ('[[cell colspan="%s"]]x[[/cell]]', ['12']), ('[[image %s]]', ['a.png', 'pg/a.png', 'http://i.co/a.png']), ('[[ol start="%s"]][[li]]x[[/li]][[/ol]]', ['12']), ('[%s x]', ['/a', '#a', 'http://e.co/a']), ('[[[%s|x]]]', ['a', 'c:a', ':s:a', '!wp:a', 'a#b']), ('[[%sspan]]x[[/span]]', ['', '*']), ('[[span%s]]x[[/span]]', ['', '_']), ('[[span]]x[[/span%s]]', ['', '_']),
    ('[[span %s="v"]]x[[/span]]', ['id', 'data-x', 'aria-label']), ('[[input checked="%s"]]', ['true', 'false']), ('[[checkbox disabled="%s"]]', ['yes', 'no']), ('[[user %s]]', ['ab']), ('[[# %s]]', ['ab']), ('((bibcite%s))', [' k']), ('{$%s}', ['ab']), ('[!--%s x--]', ['']), ('@@%s@@', ['a']), ('@<%s>@', ['&lt;', '&#65;']),
    ('\n%s x\n', ['+', '++*', '++++++', '*', '#', '  *', '>', '>>', '=', '----', '~~~~<', ':']), ('\n%s\n', ['-----', '~~~~', '~~~~>']), ('\n||%sx||', ['', '~', '=', '>', '<']), ('\n: k %s v\n', [':']), ('%sx%s', ['**', '//', '--', '__', '^^', ',,', '{{', '``', '@@']),
]


def packed(r, n=None, per=24):
    """Every value of PACK, changed by one of ODD at its start, in it and at its end, many to a document (n of those documents)."""
    all_ = []
    for t, vs in PACK:
        some = []
        for v in vs:
            for o in ODD:
                for i in {0, len(v)} | ({r.randrange(1, len(v))} if len(v) > 1 else set()):
                    some.append(fill(t, [v[:i] + o + v[i:]]))
        r.shuffle(some)
        while some:
            all_.append(('' if t.startswith('\n') else '\n').join(some[:per]))
            some = some[per:]
    return all_ if n is None or n >= len(all_) else r.sample(all_, n)
