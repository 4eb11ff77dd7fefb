"""Input generation: token soup, a wikitext grammar, and mutations of a corpus.

Everything is derived from a random.Random passed in, so a check is a
deterministic function of VERIF_SEED and its tier."""
import random

# --- token-level soup --------------------------------------------------------
MARKS = ["**", "//", "__", "^^", ",,", "--", "{{", "}}", "##", "@@", "@<", ">@",
         "[", "]", "[[", "]]", "[[[", "]]]", "[[[*", "[[/", "[[*", "[[#", "[[$",
         "$]]", "[#", "[*", "((", "))", "[!--", "--]", "~~~~", "~~~~<", "~~~~>",
         "----", "-----", "~~", "<<", ">>", ">", ">>>", "|", "||", "||~", "||<", "||>",
         "||=", "=", "==", ":", "_", "+", "++", "+*", "++++++", "*", "#", "\n", "\n\n",
         " ", "  ", "\t", "\u00a0", "{$v}", "\"x\"", "a@b.cd", "http://e.co/x", "a", "b1",
         "é", "\U0001F980", "\\", "&", "<", "'", "\"", ".", "/", ",", "<b>", "javascript:x"]
NAMES = ["a", "anchor", "bibcite", "bibliography", "blockquote", "quote", "b", "bold",
         "strong", "char", "checkbox", "code", "collapsible", "date", "del", "deletion",
         "div", "embed", "equation", "eref", "footnote", "footnoteblock", "hidden", "html",
         "ifcategory", "iframe", "iftags", "image", "include", "include-elements", "ins",
         "invisible", "i", "em", "later", "li", "lines", "mark", "math", "module", "tt",
         "ol", "p", "radio", "rb", "rt", "ruby", "size", "span", "s", "sub", "sup", "tab",
         "table", "cell", "hcell", "toc", "row", "tabview", "target", "ul", "u", "user",
         "=", "==", "<", ">", "f<toc", "=image", "f>image", "module654", "css", "notablock",
         "DIV", "Span", "div_", "span_", "a_", "li_", "ul_", "ol_", "bibcite_"]
ARGS = ["", "", "", ' class="x"', ' id="y"', ' style="color:red"', ' href="/z"', ' x', ' 5',
        ' foo bar', ' src="http://i.co/i.png"', ' onclick="evil()"', ' data-q="1"', ' name="n"',
        ' title="T"', ' hide="true"', ' type="css"', ' +tale -fake', ' tale', ' 1600000000',
        ' 2020-01-02', ' rate', ' youtube video="v"', ' http://f.co/', ' size="medium"',
        ' show="S" hide="H"', ' checked="false"', ' "q"', ' a="b', ' =', ' *']
WORDS = ["apple", "Banana", "cherry", "d1", "42", "é", "\U0001F980z", "x-y", "it's"]
BODY_INLINE = ["b", "i", "u", "s", "span", "mark", "ins", "del", "sub", "sup", "tt",
               "hidden", "invisible", "a"]
BODY_BLOCK = ["div", "blockquote", "p", "collapsible", "=", "<", ">", "=="]


def soup(r, n=12):
    out = []
    for _ in range(r.randint(1, n)):
        k = r.random()
        if k < 0.55:
            out.append(r.choice(MARKS))
        elif k < 0.75:
            out.append(r.choice(WORDS))
        elif k < 0.88:
            out.append("[[" + r.choice(["", "", "", "*", " "]) + r.choice(NAMES) + r.choice(ARGS) + "]]")
        elif k < 0.97:
            out.append("[[/" + r.choice(NAMES) + "]]")
        else:
            out.append("\n")
    return "".join(out)


# --- grammar -------------------------------------------------------------------
class Grammar:
    """Mostly well-formed wikitext; leaf words come from a supplier so callers can
    plant unique markers or hostile payloads."""

    def __init__(self, r, word=None, attr=None):
        self.r = r
        self.word = word or (lambda: r.choice(WORDS))
        self.attr = attr or (lambda: r.choice(["", "", ' class="c"', ' id="i"', ' style="s:t"',
                                               ' data-x="1"', ' title="w"', ' onclick="e"']))

    def words(self):
        return " ".join(self.word() for _ in range(self.r.randint(1, 3)))

    def inline(self, d):
        r = self.r
        if d <= 0:
            return self.words()
        k = r.randrange(34)
        sub = lambda: self.inlines(d - 1)
        if k < 6:
            return self.words()
        if k < 12:
            a, b = r.choice([("**", "**"), ("//", "//"), ("__", "__"), ("^^", "^^"), (",,", ",,"),
                             ("--", "--"), ("{{", "}}")])
            return a + sub() + b
        if k < 16:
            n = r.choice(BODY_INLINE)
            return f"[[{n}{self.attr()}]]{sub()}[[/{n}]]"
        if k == 16:
            return f"##{r.choice(['red', 'blue', '123ABC', 'a b'])}|{sub()}##"
        if k == 17:
            return f"[[size {r.choice(['50%', 'big', '2em'])}]]{sub()}[[/size]]"
        if k == 18:
            return f"[[footnote]]{sub()}[[/footnote]]"
        if k == 19:
            return f"((bibcite {r.choice(['l1', 'l2', 'l3'])}))"
        if k == 20:
            return f"[[[{r.choice(['page', 'c:page', ':site:p', 'http://e.co/', '#anc', '/loc', 'p#x', 'p/y', '!wp:Z', 'Sp ace'])}{r.choice(['', '|', '| ' + self.word()])}]]]"
        if k == 21:
            return f"[{r.choice(['http://e.co/q', '*http://e.co', '#anc', '/loc', '#', 'wp:A', 'http://e.co?a=1&b=2'])} {self.words()}]"
        if k == 22:
            return r.choice(["@@" + self.words() + "@@", "@@@@", "@<" + self.words() + ">@", "@@@@@@"])
        if k == 23:
            return f"[!-- {self.words()} --]"
        if k == 24:
            return r.choice(["--", "...", "``q''", "<<", ">>", "`a'", ",,q''", "{$var}", "a@b.cd",
                             "http://e.co/z", "~~", "_", "\u00a0"])
        if k == 25:
            return f"[[user {self.word()}]]" if r.random() < .5 else f"[[*user {self.word()}]]"
        if k == 26:
            return f"[[image {r.choice(['a.png', 'p/a.png', 's/p/a.png', 'http://i.co/i.png', '/p/a.png'])}{self.attr()}{r.choice(['', ' link=' + chr(34) + 'page' + chr(34)])}]]"
        if k == 27:
            return f"[[$ x^{r.randint(1,9)} $]]"
        if k == 28:
            return r.choice(["[[char amp]]", "[[checkbox]]", "[[*checkbox]]", "[[radio g]]", "[[date 1500000000]]",
                             "[[# anc]]", "[[eref e1]]", "[[rb a|b]]"])
        if k == 29:
            return f"[[ruby]]{sub()}[[rt]]{self.words()}[[/rt]][[/ruby]]"
        if k == 30:
            return f"[[iftags {r.choice(['+tale', '-tale', 'tale', '+zzz', 'tale -_cc', '+tale zzz'])}]]{sub()}[[/iftags]]"
        if k == 31:
            return f"[[ifcategory {r.choice(['_default', '+_default', '-_default', 'zzz'])}]]{sub()}[[/ifcategory]]"
        if k == 32:
            return f"[[span_{self.attr()}]]{sub()}[[/span]]"
        return sub()

    def inlines(self, d):
        return " ".join(self.inline(d) for _ in range(self.r.randint(1, 3)))

    def block(self, d):
        r = self.r
        if d <= 0:
            return self.inlines(1)
        k = r.randrange(28)
        para = lambda: self.inlines(2)
        sub = lambda: self.blocks(d - 1)
        if k < 6:
            return "\n".join(para() for _ in range(r.randint(1, 2)))
        if k < 9:
            n = r.choice(BODY_BLOCK)
            return f"[[{n}{self.attr() if n.isalpha() else ''}]]\n{sub()}\n[[/{n}]]"
        if k == 9:
            return f"[[{r.choice(['div_', 'p', 'div'])}]]{sub()}[[/{r.choice(['div', 'p', 'div'])}]]"
        if k < 12:
            return "\n".join(" " * r.randint(0, 3) + r.choice("*#") + " " + self.inlines(1)
                             for _ in range(r.randint(1, 5)))
        if k == 12:
            return "\n".join(">" * r.randint(1, 3) + " " + self.inlines(1) for _ in range(r.randint(1, 4)))
        if k < 15:
            return "+" * r.randint(1, 6) + r.choice(["", "*"]) + " " + self.inlines(1)
        if k == 15:
            return "\n".join("||" + "||".join(r.choice(["", "~ ", "= ", "> ", "< "]) + self.inlines(1)
                             for _ in range(r.randint(1, 3))) + "||" for _ in range(r.randint(1, 3)))
        if k == 16:
            rows = "".join("[[row]]" + "".join(f"[[{c}{self.attr()}]]{self.inlines(1)}[[/{c}]]"
                           for c in r.choices(["cell", "hcell"], k=r.randint(1, 2))) + "[[/row]]\n"
                           for _ in range(r.randint(1, 2)))
            return f"[[table{self.attr()}]]\n{rows}[[/table]]"
        if k == 17:
            l = r.choice(["ul", "ol"])
            return f"[[{l}]]\n" + "".join(f"[[li]]{self.inlines(1)}[[/li]]\n" for _ in range(r.randint(1, 3))) + f"[[/{l}]]"
        if k == 18:
            return "[[tabview]]\n" + "".join(f"[[tab {self.word()}]]\n{sub()}\n[[/tab]]\n" for _ in range(r.randint(1, 2))) + "[[/tabview]]"
        if k == 19:
            return "\n".join(f": {self.word()} : {self.inlines(1)}" for _ in range(r.randint(1, 3)))
        if k == 20:
            return "[[bibliography]]\n" + "\n".join(f": {l} : {self.inlines(1)}" for l in r.sample(["l1", "l2", "l3"], r.randint(1, 3))) + "\n[[/bibliography]]"
        if k == 21:
            return f"[[code{r.choice(['', ' type=' + chr(34) + 'css' + chr(34), ' name=' + chr(34) + self.word() + chr(34)])}]]\n{self.words()}\n[[/code]]"
        if k == 22:
            return r.choice([f"[[html]]\n<b>{self.word()}</b>\n[[/html]]", f"[[math e{r.randint(1,2)}]]\nx_1\n[[/math]]",
                             "[[iframe http://f.co/]]", "[[embed youtube video=\"v1\"]]", "[[module CSS]]\na { b: c; }\n[[/module]]",
                             "[[module Rate]]", "[[lines 2]]", "[[css]]\na {}\n[[/css]]"])
        if k == 23:
            return r.choice(["[[toc]]", "[[f<toc]]", "[[f>toc]]", "[[footnoteblock]]", "[[footnoteblock title=\"FN\"]]", "[[footnoteblock hide=\"true\"]]"])
        if k == 24:
            return r.choice(["----", "~~~~", "~~~~<", "~~~~>", "-----"])
        if k == 25:
            return "= " + self.inlines(1)
        if k == 26:
            return f"[[iftags {r.choice(['+tale', '-tale', 'tale', '+zzz', 'zzz'])}]]\n{sub()}\n[[/iftags]]"
        return f"[[collapsible{r.choice(['', ' show=' + chr(34) + self.word() + chr(34), ' folded=' + chr(34) + 'no' + chr(34)])}]]\n{sub()}\n[[/collapsible]]"

    def blocks(self, d):
        r = self.r
        return r.choice(["\n", "\n\n", "\n\n"]).join(self.block(d) for _ in range(r.randint(1, 3)))

    def doc(self, d=2):
        return self.blocks(d)


def mutate(r, text, other=None):
    """Small edits that keep most structure: delete, duplicate, swap, splice marks."""
    if not text:
        return soup(r)
    for _ in range(r.randint(1, 3)):
        k = r.randrange(7)
        i = r.randrange(len(text) + 1)
        j = min(len(text), i + r.randint(1, 8))
        if k == 0:
            text = text[:i] + text[j:]
        elif k == 1:
            text = text[:j] + text[i:j] + text[j:]
        elif k in (2, 3):
            text = text[:i] + r.choice(MARKS) + text[i:]
        elif k == 4:
            text = text[:i] + "[[" + r.choice(["", "/", "*"]) + r.choice(NAMES) + r.choice(ARGS) + "]]" + text[i:]
        elif k == 5 and other:
            a = r.randrange(len(other) + 1)
            text = text[:i] + other[a:a + r.randint(1, 40)] + text[i:]
        else:
            text = text[:i]
    return text
