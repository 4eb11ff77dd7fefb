----------------------------- MODULE RenderHtml -----------------------------
(* The HTML of a tree: every element contributes its own markup once, in     *)
(* order, around that of its children.  The state s of rendering is          *)
(*   out: the HTML so far;                                                   *)
(*   toc, eq, fn: the last heading (from 0), equation and footnote numbered; *)
(*   cite: inside the tooltip of a citation;  block: inside a footnote       *)
(*   block; what is rendered there is a copy, and not numbered;              *)
(*   vars: the variables of the pages included, innermost first;             *)
(*   ids: how many random identifiers were handed out;                       *)
(*   int, ext: the pages and addresses linked to so far.                     *)
(* The context c has: site, page, trueids, local, minify, uni, shows, stamps *)
(* (Unix times of dates), css and math (what the libraries make of a style   *)
(* sheet or of mathematics), fns, bibs and toc of the page.                  *)
EXTENDS RenderText

LOCAL Nul == JsonDeserialize("consts.json").nul
LOCAL Special == {">", "<", "&", "'", "\"", Nul}
EscC(x) == CASE x = ">" -> "&gt;" [] x = "<" -> "&lt;" [] x = "&" -> "&amp;" [] x = "'" -> "&#39;"
             [] x = "\"" -> "&quot;" [] x = Nul -> " " [] OTHER -> x
Esc(t) == IF ~AnyIn(t, Special) THEN t ELSE FoldS(LAMBDA a, x : a \o EscC(x), t, "")

VoidTags == {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"}

(* Attributes: those of the element itself, then the user's; where both give *)
(* the same one the user's value is added to the element's                   *)
LOCAL A1(k, v) == " " \o Esc(k) \o (IF v = "" THEN "" ELSE "=\"" \o Esc(v) \o "\"")
LOCAL Keys(as) == {as[i][1] : i \in 1..Len(as)}
LOCAL ValueOf(as, k) == as[CHOOSE i \in 1..Len(as) : as[i][1] = k][2]
AttrText(own, user) ==
    LET both == SelectSeq(own, LAMBDA kv : kv[1] \in Keys(user))
        mine == SelectSeq(own, LAMBDA kv : kv[1] \notin Keys(user))
        theirs == SelectSeq(user, LAMBDA kv : kv[1] \notin Keys(own))
    IN Concat(Map(LAMBDA kv : A1(kv[1], kv[2] \o " " \o ValueOf(user, kv[1])), both)
              \o Map(LAMBDA kv : A1(kv[1], kv[2]), mine \o theirs))

Put(s, t) == [s EXCEPT !.out = @ \o t]
PutEsc(s, t) == Put(s, Esc(t))
(* An element around what F writes *)
Tag2(s, tag, own, user, F(_)) ==
    LET o == Put(s, "<" \o tag \o AttrText(own, user) \o ">")
    IN IF tag \in VoidTags THEN o ELSE Put(F(o), "</" \o tag \o ">")
Tag(s, tag, own, F(_)) == Tag2(s, tag, own, <<>>, F)
TagT(s, tag, own, t) == Tag(s, tag, own, LAMBDA x : PutEsc(x, t))
Empty(s, tag, own) == Tag(s, tag, own, LAMBDA x : x)
Cl(v) == <<<<"class", v>>>>
At(k, v) == <<<<k, v>>>>
If(b, as) == IF b THEN as ELSE <<>>
Yes(e, f) == Get(e, f) = "true"
Copy(s) == s.cite \/ s.block
Id(n) == "wj-id-" \o ToString(n)

Sprite(s, id) ==
    Tag(s, "svg", Cl("wj-sprite sprite-" \o id) \o At("viewBox", IF id = "wj-karma" THEN "0 0 64 114" ELSE "0 0 24 24"),
        LAMBDA x : Empty(x, "use", At("href", "/files--static/media/ui.svg#" \o id)))

TargetOf(e) == IF Has(e, "link-url") THEN UrlTarget(Get(e, "link-url"))
               ELSE [kind |-> "page", url |-> "", site |-> GetO(e, "link-site"), page |-> Get(e, "link-page")]
TargetAttr(e) == If(Has(e, "target"), At("target", CASE Get(e, "target") = "new-tab" -> "_blank" [] Get(e, "target") = "parent" -> "_parent"
                                                      [] Get(e, "target") = "top" -> "_top" [] OTHER -> "_self"))
(* Links are reported as they are met *)
AddLink(s, t) ==
    IF t.kind = "page" THEN [s EXCEPT !.int = Append(@, [site |-> t.site, page |-> t.page])]
    ELSE IF t.url = "javascript:;" THEN s
    ELSE LET u == IF Starts(t.url, "/") THEN From(t.url, 2) ELSE t.url
         IN IF IsUrl(u) THEN [s EXCEPT !.ext = Append(@, u)]
            ELSE [s EXCEPT !.int = Append(@, [site |-> None, page |-> u])]
LinkClass(t) ==
    IF t.kind = "page" THEN "wj-link-internal"
    ELSE IF t.url = "javascript:;" \/ Starts(t.url, "#") THEN "wj-link-anchor"
    ELSE IF Starts(t.url, "/") THEN "wj-link-internal" ELSE "wj-link-external"
LinkH(c, s, e) ==
    LET t == TargetOf(e) IN
    TagT(AddLink(s, t), "a",
         At("href", NormalizeLink(c.uni, t) \o Get(e, "extra")) \o TargetAttr(e)
         \o Cl("wj-link " \o LinkClass(t) \o (IF Get(e, "type") = "interwiki" THEN " wj-link-interwiki" ELSE ""))
         \o At("data-link-type", Get(e, "type")), LinkLabel(c, e))

FileUrl(site, page, file) == "https://" \o site \o ".wjfiles.com/local--files/" \o page \o "/" \o file
FloatClass(e) == IF Yes(e, "float") THEN "wj-float-" \o Get(e, "align") ELSE "wj-align-" \o Get(e, "align")
ImageH(c, s, e) ==
    LET k == Get(e, "source")
        url == CASE k = "url" -> Get(e, "source-url")
                 [] k = "file1" -> FileUrl(c.site, c.page, Get(e, "source-file"))
                 [] k = "file2" -> FileUrl(c.site, Get(e, "source-page"), Get(e, "source-file"))
                 [] OTHER -> FileUrl(Get(e, "source-site"), Get(e, "source-page"), Get(e, "source-file"))
        img(x) == Tag2(x, "img", Cl("wj-image") \o At("src", url) \o At("crossorigin", ""), AttrsOf(e), LAMBDA y : y)
    IN IF k # "url" /\ ~c.local THEN TagT(s, "div", Cl("wj-error-block"), "No images in this context")
       ELSE Tag(s, "div", Cl("wj-image-container" \o (IF Has(e, "align") THEN " " \o FloatClass(e) ELSE "")),
                LAMBDA x : IF Has(e, "link-url") \/ Has(e, "link-page")
                           THEN Tag(x, "a", At("href", NormalizeLink(c.uni, TargetOf(e))), img) ELSE img(x))

DateH(c, s, e) ==
    LET v == Get(e, "value") IN
    TagT(s, "span", Cl("wj-date" \o (IF Yes(e, "hover") THEN " wj-date-hover" ELSE ""))
                    \o At("data-timestamp", IF v \in DOMAIN c.stamps THEN c.stamps[v] ELSE "?") \o At("data-delta", "T"), DateText(c, e))

UserH(s, e) ==
    Tag(s, "span", Cl("wj-user-info"), LAMBDA x :
      Tag(x, "a", Cl("wj-user-info-link") \o At("href", "/user:info/" \o Get(e, "name")), LAMBDA y :
        LET z == IF ~Yes(e, "show-avatar") THEN y
                 ELSE Empty(Tag(y, "span", Cl("wj-karma") \o At("data-karma", "5"), LAMBDA w : Sprite(w, "wj-karma")),
                            "img", Cl("wj-user-info-avatar") \o At("src", "AVATAR"))
        IN TagT(z, "span", Cl("wj-user-info-name"), Get(e, "name"))))

CodeH(s, e) ==
    Tag(s, "wj-code", Cl(Lower("wj-code wj-language-" \o OrElse(GetO(e, "language"), "none"))), LAMBDA x :
      Tag(Tag(x, "div", Cl("wj-code-panel"), LAMBDA y :
            TagT(Tag(y, "wj-code-copy", At("type", "button") \o Cl("wj-code-copy") \o At("title", "Copy to Clipboard"),
                     LAMBDA z : Sprite(Sprite(z, "wj-clipboard"), "wj-clipboard-success")),
                 "span", Cl("wj-code-language"), Get(e, "language"))),
          "pre", <<>>, LAMBDA y : TagT(y, "code", <<>>, Get(e, "contents"))))

(* c.math: <<display, source>> pairs (joined) to [ok, text] *)
MathH(c, s, e, block) ==
    LET number == block /\ ~Copy(s)
        s1 == IF number THEN [s EXCEPT !.eq = @ + 1] ELSE s
        src == Get(e, "latex-source")
        made == c.math[(IF block THEN "b:" ELSE "i:") \o src]
    IN Tag(s1, IF block THEN "div" ELSE "span", Cl("wj-math " \o (IF block THEN "wj-math-block" ELSE "wj-math-inline"))
                                                \o If(Has(e, "name"), At("data-name", Get(e, "name"))), LAMBDA x :
         LET y == IF ~number THEN x
                  ELSE Tag(x, "span", Cl("wj-equation-number"), LAMBDA z :
                         TagT(Put(TagT(z, "span", Cl("wj-equation-paren wj-equation-paren-open"), "("), ToString(s1.eq)),
                              "span", Cl("wj-equation-paren wj-equation-paren-close"), ")"))
             w == TagT(y, "code", Cl("wj-math-source wj-hidden") \o At("aria-hidden", "true"), src)
         IN IF made.ok THEN Tag(w, "wj-math-ml", Cl("wj-math-ml"), LAMBDA z : Put(z, made.text))
            ELSE TagT(w, "span", Cl(IF block THEN "wj-error-block" ELSE "wj-error-inline"), made.text))

StyleH(c, s, e) ==
    LET made == c.css[(IF c.minify THEN "m:" ELSE "p:") \o Get(e, "text")]
    IN IF ~made.ok THEN s ELSE Tag(s, "style", <<>>, LAMBDA x : Put(x, ReplaceStr(made.text, "</", "<\\/")))

EmbedH(s, e) ==
    Tag(s, "div", Cl("wj-embed"), LAMBDA x :
      LET frame(u, allow) == Empty(x, "iframe", At("src", u) \o At("frameborder", "0") \o At("allow", allow) \o At("allowfullscreen", ""))
      IN CASE Get(e, "embed") = "youtube" ->
                frame("https://www.youtube.com/embed/" \o Get(e, "video-id"),
                      "accelerometer; autoplay; clipboard-write; encrypted-media; gyroscope; picture-in-picture")
           [] Get(e, "embed") = "vimeo" ->
                frame("https://player.vimeo.com/video/" \o Get(e, "video-id"), "autoplay; fullscreen; picture-inpicture")
           [] Get(e, "embed") = "github-gist" ->
                Empty(x, "script", At("src", "https://gist.github.com/" \o Get(e, "username") \o "/" \o Get(e, "hash") \o ".js"))
           [] OTHER -> Empty(x, "script", At("src", "https://gitlab.com/-/snippets/" \o Get(e, "snippet-id") \o ".js")))

ModuleNames == [backlinks |-> "Backlinks", categories |-> "Categories", join |-> "Join", rate |-> "Rate"]
               @@ ("page-tree" :> "PageTree")

SimpleTags == [bold |-> "strong", italics |-> "em", underline |-> "u", superscript |-> "sup", subscript |-> "sub",
               strikethrough |-> "s", span |-> "span", div |-> "div", mark |-> "mark", blockquote |-> "blockquote",
               insertion |-> "ins", deletion |-> "del", size |-> "span", ruby |-> "ruby", paragraph |-> "p"]
               @@ ("ruby-text" :> "rt")
(* The first bibliography that has the label, and its first entry with it *)
Citation(c, label) ==
    LET Of(b) == {i \in 1..Len(b) : b[i].label = label}
        K == {k \in 1..Len(c.bibs) : Of(c.bibs[k]) # {}}
    IN IF K = {} THEN [n |-> 0, els |-> <<>>]
       ELSE LET b == c.bibs[CHOOSE k \in K : \A j \in K : k <= j]
                n == CHOOSE i \in Of(b) : \A j \in Of(b) : i <= j
            IN [n |-> n, els |-> b[n].els]

RECURSIVE Hs(_, _, _)
RECURSIVE H(_, _, _)
Hs(c, s, els) == FoldLeft(LAMBDA a, e : H(c, a, e), s, els)

FootnoteH(c, s) ==
    IF s.cite THEN s
    ELSE LET n == s.fn + 1
             id == ToString(n)
             label == "Footnote " \o id \o "."
         IN Tag([s EXCEPT !.fn = n], "span", Cl("wj-footnote-ref"), LAMBDA x :
              Tag(TagT(x, "wj-footnote-ref-marker", Cl("wj-footnote-ref-marker") \o At("role", "link") \o At("aria-label", label)
                                                    \o At("data-id", id), id),
                  "span", Cl("wj-footnote-ref-tooltip") \o At("aria-hidden", "true"), LAMBDA y :
                    Tag(TagT(y, "span", Cl("wj-footnote-ref-tooltip-label"), label),
                        "span", Cl("wj-footnote-ref-contents"),
                        LAMBDA z : IF n > Len(c.fns) THEN Put(z, "?") ELSE Hs(c, z, c.fns[n]))))

FootnoteBlockH(c, s, e) ==
    IF Yes(e, "hide") \/ c.fns = <<>> THEN s
    ELSE Tag(s, "div", Cl("wj-footnote-list"), LAMBDA x :
           Tag(TagT(x, "div", Cl("wj-title"), OrElse(GetO(e, "title"), "Footnotes")), "ol", <<>>, LAMBDA y :
             FoldLeft(LAMBDA a, i :
               Tag(a, "li", Cl("wj-footnote-list-item") \o At("data-id", ToString(i)), LAMBDA z :
                 LET w == Tag(z, "wj-footnote-list-item-marker", Cl("wj-footnote-list-item-marker") \o At("type", "button") \o At("role", "link"),
                              LAMBDA q : TagT(Put(q, ToString(i)), "span", Cl("wj-footnote-sep"), "."))
                 IN [Tag([w EXCEPT !.block = TRUE], "span", Cl("wj-footnote-list-item-contents"), LAMBDA q : Hs(c, q, c.fns[i]))
                     EXCEPT !.block = FALSE]), y, Idx(c.fns))))

CiteH(c, s, e) ==
    LET cit == Citation(c, Get(e, "label"))
        id == ToString(cit.n)
        label == "Reference " \o id \o "."
        br(x, t) == IF Yes(e, "brackets") THEN Put(x, t) ELSE x
    IN IF cit.n = 0 THEN TagT(s, "span", Cl("wj-error-inline"), "Bibliography item not found")
       ELSE Tag(s, "span", Cl("wj-bibliography-ref"), LAMBDA x :
              LET y == br(TagT(br(x, "["), "wj-bibliography-ref-marker",
                               Cl("wj-bibliography-ref-marker") \o At("role", "link") \o At("aria-label", label) \o At("data-id", id), id), "]")
              IN IF y.cite THEN y
                 ELSE Tag(y, "span", Cl("wj-bibliography-ref-tooltip") \o At("aria-hidden", "true"), LAMBDA z :
                        LET w == TagT(z, "span", Cl("wj-bibliography-ref-tooltip-label"), label)
                        IN [Tag([w EXCEPT !.cite = TRUE], "span", Cl("wj-bibliography-ref-contents"), LAMBDA q : Hs(c, q, cit.els))
                            EXCEPT !.cite = FALSE]))

BibliographyH(c, s, e) ==
    LET k == NumOf(Get(e, "index")) + 1
        shown ==
          Tag(s, "div", Cl("wj-bibliography bibitems"), LAMBDA x :
            FoldLeft(LAMBDA a, i :
              LET n == ToString(k) \o "-" \o ToString(i) IN
              Tag(a, "div", Cl("wj-bibliography-item bibitem") \o If(~Copy(a), At("id", "wj-bibliography-item-" \o n \o " bibitem-" \o n)), LAMBDA y :
                Hs(c, Tag(y, "wj-bibliography-item-marker", Cl("wj-bibliography-item-marker") \o At("type", "button") \o At("role", "link"),
                          LAMBDA q : TagT(Put(q, ToString(i)), "span", Cl("wj-bibliography-sep"), ".")), c.bibs[k][i].els)),
              TagT(x, "div", Cl("wj-bibliography-title title"), OrElse(GetO(e, "title"), "Bibliography")), Idx(c.bibs[k])))
    IN IF Yes(e, "hide") THEN [shown EXCEPT !.out = s.out, !.int = s.int, !.ext = s.ext, !.ids = s.ids] ELSE shown

TocH(c, s, e) ==
    LET own(id) == If(c.trueids, At("id", id)) IN
    Tag2(s, "div", own("wj-toc") \o If(Has(e, "align"), Cl("wj-float-" \o Get(e, "align"))), AttrsOf(e), LAMBDA x :
      Tag(TagT(Tag(x, "div", own("wj-toc-action-bar"), LAMBDA y :
                 Empty(y, "a", At("href", "javascript:;") \o At("onclick", "WIKIJUMP.page.listeners.foldToc(event)"))),
               "div", Cl("title"), "Table of Contents"),
          "div", own("wj-toc-list"), LAMBDA y : Hs(c, y, c.toc)))

CollapsibleH(c, s, e) ==
    LET show == OrElse(GetO(e, "show-text"), "+ open block")
        hide == OrElse(GetO(e, "hide-text"), "- hide block")
    IN Tag2(s, "details", Cl("wj-collapsible") \o If(Yes(e, "start-open"), At("open", "")) \o If(Yes(e, "show-top"), At("data-show-top", ""))
                          \o If(Yes(e, "show-bottom"), At("data-show-bottom", "")), AttrsOf(e), LAMBDA x :
         LET y == Tag(x, "summary", Cl("wj-collapsible-button wj-collapsible-button-top"), LAMBDA q :
                    TagT(TagT(q, "span", Cl("wj-collapsible-show-text"), show), "span", Cl("wj-collapsible-hide-text"), hide))
             z == Tag(y, "div", Cl("wj-collapsible-content"), LAMBDA q : Hs(c, q, e.c))
         IN IF ~Yes(e, "show-bottom") THEN z
            ELSE Tag(z, "wj-collapsible-button-bottom", Cl("wj-collapsible-button wj-collapsible-button-bottom"),
                     LAMBDA q : TagT(q, "span", Cl("wj-collapsible-hide-text"), hide)))

TabsH(c, s, e) ==
    LET n == Len(e.c)
        b == s.ids
        button(i) == Id(b + 2 * i - 1)
        panel(i) == Id(b + 2 * i)
    IN Tag([s EXCEPT !.ids = @ + 2 * n], "wj-tabs", Cl("wj-tabs"), LAMBDA x :
         Tag(Tag(x, "div", Cl("wj-tabs-button-list") \o At("role", "tablist"), LAMBDA y :
               FoldLeft(LAMBDA a, i :
                 LET l == Get(e.c[i], "label") IN
                 TagT(a, "wj-tabs-button", Cl("wj-tabs-button") \o At("id", button(i)) \o At("role", "tab") \o At("aria-label", l)
                         \o At("aria-selected", IF i = 1 THEN "true" ELSE "false") \o At("aria-controls", panel(i))
                         \o At("tabindex", IF i = 1 THEN "0" ELSE "-1"), l), y, Idx(e.c))),
             "div", Cl("wj-tabs-panel-list"), LAMBDA y :
               FoldLeft(LAMBDA a, i :
                 Tag(a, "div", Cl("wj-tabs-panel") \o At("id", panel(i)) \o At("role", "tabpanel") \o At("aria-labelledby", button(i))
                        \o At("tabindex", "0") \o If(i > 1, At("hidden", "")), LAMBDA z : Hs(c, z, e.c[i].c)), y, Idx(e.c))))

ContainerH(c, s, e) ==
    LET t == Get(e, "type")
        u == AttrsOf(e)
        box(x, tag, own) == Tag2(x, tag, own, u, LAMBDA y : Hs(c, y, e.c))
        h == "h" \o Get(e, "level")
    IN CASE t = "header" ->
              IF ~Yes(e, "has-toc") \/ Copy(s) THEN box(s, h, <<>>)
              ELSE LET k == s.toc + 1 IN
                   IF c.trueids THEN box([s EXCEPT !.toc = k], h, At("id", "toc" \o ToString(k)))
                   ELSE box([s EXCEPT !.toc = k, !.ids = @ + 1], h, At("id", Id(s.ids + 1)))
         [] t = "monospace" -> box(s, "code", Cl("wj-monospace"))
         [] t \in {"hidden", "invisible"} -> box(s, "span", Cl("wj-" \o t))
         [] t = "align" -> box(s, "div", Cl("wj-align-" \o Get(e, "align")))
         [] t = "ruby-text" -> TagT(box(TagT(s, "rp", <<>>, "("), "rt", <<>>), "rp", <<>>, ")")
         [] OTHER -> box(s, SimpleTags[t], <<>>)

TableH(c, s, e) ==
    Tag2(s, "table", <<>>, AttrsOf(e), LAMBDA x :
      Tag(x, "tbody", <<>>, LAMBDA y :
        FoldLeft(LAMBDA a, row :
          Tag2(a, "tr", <<>>, AttrsOf(row), LAMBDA z :
            FoldLeft(LAMBDA b, cell :
              Tag2(b, IF Yes(cell, "header") THEN "th" ELSE "td",
                   If(Get(cell, "column-span") # "1", At("colspan", Get(cell, "column-span")))
                   \o If(Has(cell, "align"), Cl("wj-align-" \o Get(cell, "align"))), AttrsOf(cell),
                   LAMBDA q : Hs(c, q, cell.c)), z, row.c)), y, e.c)))

ListH(c, s, e) ==
    Tag2(s, IF Get(e, "type") = "numbered" THEN "ol" ELSE "ul", <<>>, AttrsOf(e), LAMBDA x :
      FoldLeft(LAMBDA a, i : IF i.n = "sub-list" THEN H(c, a, i.c[1])
                             ELSE Tag2(a, "li", <<>>, AttrsOf(i), LAMBDA y : Hs(c, y, i.c)), x, e.c))


H(c, s, e) ==
    CASE e.n = "text" -> PutEsc(s, Get(e, "text"))
      [] e.n = "raw" -> TagT(s, "span", Cl("wj-raw"), Get(e, "text"))
      [] e.n = "email" -> TagT(s, "span", Cl("wj-email"), Get(e, "text"))
      [] e.n = "variable" -> PutEsc(s, Var(s, Get(e, "text")))
      [] e.n = "container" -> ContainerH(c, s, e)
      [] e.n = "module" -> Put(s, "<p>TODO: module " \o ModuleNames[Get(e, "module")] \o "</p>")
      [] e.n = "table" -> TableH(c, s, e)
      [] e.n = "tab-view" -> TabsH(c, s, e)
      [] e.n = "anchor" -> Tag2(s, "a", Cl("wj-anchor") \o TargetAttr(e), AttrsOf(e), LAMBDA x : Hs(c, x, e.c))
      [] e.n = "anchor-name" -> Empty(s, "a", At("id", Get(e, "text")))
      [] e.n = "link" -> LinkH(c, s, e)
      [] e.n = "image" -> ImageH(c, s, e)
      [] e.n = "list" -> ListH(c, s, e)
      [] e.n = "definition-list" ->
           Tag(s, "dl", <<>>, LAMBDA x :
             FoldLeft(LAMBDA a, d : Tag(Tag(a, "dt", <<>>, LAMBDA y : Hs(c, y, d.c[1].c)), "dd", <<>>, LAMBDA y : Hs(c, y, d.c[2].c)), x, e.c))
      [] e.n = "radio-button" -> Tag2(s, "input", At("name", Get(e, "name")) \o At("type", "radio") \o If(Yes(e, "checked"), At("checked", "")),
                                      AttrsOf(e), LAMBDA x : x)
      [] e.n = "check-box" -> Tag2(s, "input", At("type", "checkbox") \o If(Yes(e, "checked"), At("checked", "")), AttrsOf(e), LAMBDA x : x)
      [] e.n = "collapsible" -> CollapsibleH(c, s, e)
      [] e.n = "table-of-contents" -> TocH(c, s, e)
      [] e.n = "footnote" -> FootnoteH(c, s)
      [] e.n = "footnote-block" -> FootnoteBlockH(c, s, e)
      [] e.n = "bibliography-cite" -> CiteH(c, s, e)
      [] e.n = "bibliography-block" -> BibliographyH(c, s, e)
      [] e.n = "user" -> UserH(s, e)
      [] e.n = "date" -> DateH(c, s, e)
      [] e.n = "color" -> Tag(s, "span", At("style", "color: " \o Get(e, "color") \o ";"), LAMBDA x : Hs(c, x, e.c))
      [] e.n = "code" -> CodeH(s, e)
      [] e.n = "math" -> MathH(c, s, e, TRUE)
      [] e.n = "math-inline" -> MathH(c, s, e, FALSE)
      [] e.n = "equation-reference" ->
           Tag(s, "span", Cl("wj-equation-ref"), LAMBDA x :
             Empty(TagT(x, "wj-equation-ref-marker", Cl("wj-equation-ref-marker") \o At("type", "button") \o At("data-name", Get(e, "text")), Get(e, "text")),
                   "span", Cl("wj-equation-ref-tooltip") \o At("aria-hidden", "true")))
      [] e.n = "embed" -> EmbedH(s, e)
      [] e.n = "html" -> Empty(s, "iframe", At("src", "https://example.com/") \o At("crossorigin", ""))
      [] e.n = "iframe" -> Tag2(s, "iframe", At("src", Get(e, "url")) \o At("crossorigin", ""), AttrsOf(e), LAMBDA x : x)
      [] e.n = "include" -> [Hs(c, [s EXCEPT !.vars = <<VarsOf(e)>> \o @], e.c) EXCEPT !.vars = s.vars]
      [] e.n = "style" -> StyleH(c, s, e)
      [] e.n = "line-break" -> Empty(s, "br", <<>>)
      [] e.n = "line-breaks" -> FoldLeft(LAMBDA a, i : Empty(a, "br", <<>>), s, [i \in 1..NumOf(Get(e, "n")) |-> i])
      [] e.n = "clear-float" -> Empty(s, "div", Cl("wj-clear-float wj-clear-float-" \o Get(e, "which")))
      [] e.n = "horizontal-rule" -> Empty(s, "hr", <<>>)

Start == [out |-> "", toc |-> -1, eq |-> 0, fn |-> 0, cite |-> FALSE, block |-> FALSE, vars |-> <<>>, ids |-> 0, int |-> <<>>, ext |-> <<>>]
HtmlOf(c, els) == Tag(Start, "wj-body", Cl("wj-body"), LAMBDA x : Hs(c, x, els))

(* What is said about the page in the head of the document *)
MetaOf(c) ==
    LET m(kind, name, value) == "<meta " \o kind \o "=\"" \o Esc(name) \o "\" content=\"" \o Esc(value) \o "\" />"
    IN <<m("http-equiv", "Content-Type", "text/html"), m("name", "generator", "V"),
         m("name", "description", c.title \o (IF c.alt.some THEN " - " \o c.alt.v ELSE "")), m("name", "keywords", JoinS(c.tags, ","))>>
=============================================================================
