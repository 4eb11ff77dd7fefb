"""Every block under each of its names (MCNames writes them), with arguments and bodies."""
import docs, pages

ARGS = {
    'block-anchor': [' href="/p"', ' name="n"', ''], 'block-bibcite': [' k'], 'block-char': [' amp', ' 65', ' &#169;'], 'block-checkbox': ['', ' class="c"'], 'block-code': ['', ' type="css"', ' type="RUST"'],
    'block-collapsible': ['', ' show="s" hide="h"', ' folded="no" hideLocation="both"'], 'block-date': [' 1500000000', ' 2020-01-02', ' 0 tz="+02:00"'], 'block-div': ['', ' class="c"'], 'block-embed': [' youtube video="v"', ' vimeo video="v"', ' github-gist username="u" hash="h"', ' gitlab-snippet snippet-id="3"'],
    'block-equation-ref': [' e'], 'block-footnote-block': ['', ' title="t"', ' hide="yes"'], 'block-ifcategory': [' _default', ' -x', ' x'], 'block-iftags': [' tale', ' -tale', ' +zz'], 'block-iframe': [' http://f.co/'], 'block-image': [' a.png', ' http://e.co/i.jpg', ' a.png alt="z" link="p"', ' p/a.png'],
    'block-include-elements': [' pg'], 'block-include': [' pg', ' pg |a=b'], 'block-lines': [' 3', ' 1', ' x'], 'block-math': ['', ' e'], 'block-module': [' Rate', ' css', ' Backlinks page="x"', ' categories includeHidden="true"', ' JOIN button="b"', ' PageTree root="r" depth="2"', ' Nope'], 'block-radio': [' g', ' g checked="yes"'],
    'block-size': [' 2em', ' larger'], 'block-tab': [' t', ' a b'], 'block-target': [' n', ' a b'], 'block-user': [' bob', ' a b'], 'block-ruby-short': [' a|b', ' a | b c', ' a'], 'block-table-cell-regular': ['', ' colspan="2"'], 'block-table-cell-header': ['', ' style="a:b"'], 'block-bibliography': ['', ' title="t"', ' hide="true"'],
    'block-toc': ['', ' class="c"'],
}
AROUND = {
    'block-list-item': ('[[ul]]', '[[/ul]]'), 'block-table-row': ('[[table]]', '[[/table]]'), 'block-table-cell-regular': ('[[table]][[row]]', '[[/row]][[/table]]'), 'block-table-cell-header': ('[[table]][[row]]', '[[/row]][[/table]]'), 'block-tab': ('[[tabview]]', '[[/tabview]]'), 'block-ruby-text': ('[[ruby]]x', '[[/ruby]]'),
}
BODIES = {
    'block-list-unordered': ['[[li]]i[[/li]]'], 'block-list-ordered': ['[[li]]i[[/li]]'], 'block-table': ['[[row]][[cell]]c[[/cell]][[/row]]'], 'block-table-row': ['[[cell]]c[[/cell]][[hcell]]d[[/hcell]]'], 'block-tabview': ['[[tab t]]x[[/tab]]'], 'block-ruby': ['x[[rt]]y[[/rt]]'], 'block-bibliography': [': k : v'],
    'block-math': ['x^2'], 'block-code': ['a **b**'], 'block-html': ['<b>x</b>'], 'block-module': ['a { b: c }'],
}
PLAIN = ['y', 'y', '**y** z', 'a\n\nb', '[[footnote]]f[[/footnote]]', '\n* i\n', '']


def written(c, r, n):
    """n of the blocks MCNames writes, each name among them."""
    got, _ = c.tlc('MCNames')
    by = {}
    for x in got:
        by.setdefault((x['rule'], x['text'].split('@A')[0].strip('[* _').lower()), []).append(x)
    out, each = [], max(1, n // len(by))
    for rule, name in sorted(by):
        xs = sorted(by[rule, name], key=lambda x: x['text'])
        for x in r.sample(xs, min(len(xs), each)):
            a, z = AROUND.get(rule, ('', '')) if r.random() < .8 else ('', '')
            t = x['text'].replace('@A', r.choice(ARGS.get(rule, ['', '', ' class="c"']))).replace('@B', r.choice(BODIES[rule] if rule in BODIES and r.random() < .85 else PLAIN))
            out.append(r.choice(['', '', 'w ', 'w\n', '**']) + a + t + z + r.choice(['', '', ' v', '\n\nv', '**']))
    return out
