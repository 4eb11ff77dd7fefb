-------------------------------- MODULE Html --------------------------------
(* What every rendered page must look like, whatever it was rendered from: a *)
(* machine that reads the page as a sequence of events                       *)
(*   o: a tag opened, with attributes;  c: a tag closed;  t: text;           *)
(*   r: content taken literally (of style, script, math);                    *)
(*   bad: characters which are none of these                                 *)
(* and keeps the stack of open elements, what is numbered, and which         *)
(* identifiers exist and are referred to.  Its verdicts are pairs of the     *)
(* property and what is wrong.                                               *)
EXTENDS Text

VoidTag == {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"}
AllowedTags ==
    {"wj-body", "a", "br", "code", "dd", "details", "div", "dl", "dt", "hr", "iframe", "img", "input", "li", "ol", "pre", "rp", "rt",
     "ruby", "script", "style", "span", "sub", "sup", "summary", "table", "tbody", "tr", "td", "th", "ul", "strong", "em", "u", "s",
     "mark", "blockquote", "ins", "del", "p", "h1", "h2", "h3", "h4", "h5", "h6", "svg", "use", "math", "wj-code", "wj-code-copy",
     "wj-tabs", "wj-tabs-button", "wj-footnote-ref-marker", "wj-footnote-list-item-marker", "wj-bibliography-ref-marker",
     "wj-bibliography-item-marker", "wj-equation-ref-marker", "wj-math-ml", "wj-collapsible-button-bottom"}
(* attributes the renderer writes itself, where users may not *)
OwnAttributes(tag) ==
    CASE tag = "img" -> {"crossorigin"}
      [] tag = "iframe" -> {"crossorigin", "frameborder", "allow", "allowfullscreen"}
      [] tag = "details" -> {"open"}
      [] tag = "svg" -> {"viewBox"}
      [] tag = "math" -> {"xmlns", "display"}
      [] OTHER -> {}
(* blocks, which no paragraph contains directly *)
Blocks == {"p", "div", "blockquote", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "dl", "table", "hr", "details", "iframe",
           "wj-tabs", "wj-code", "script", "style", "li", "pre"}
Owner(tag) ==
    CASE tag = "li" -> {"ul", "ol"} [] tag \in {"dt", "dd"} -> {"dl"} [] tag \in {"tr"} -> {"tbody"} [] tag \in {"td", "th"} -> {"tr"}
      [] tag = "tbody" -> {"table"} [] tag \in {"rt", "rp"} -> {"ruby"} [] tag = "summary" -> {"details"} [] tag = "use" -> {"svg"}
      [] OTHER -> {}
Members(tag) ==
    CASE tag \in {"ul", "ol"} -> {"li", "ul", "ol"} [] tag = "dl" -> {"dt", "dd"} [] tag = "table" -> {"tbody"}
      [] tag = "tbody" -> {"tr"} [] tag = "tr" -> {"td", "th"} [] OTHER -> {}
ClassOwner(cls) == CASE cls = "wj-tabs-panel" -> "wj-tabs-panel-list" [] cls = "wj-tabs-button" -> "wj-tabs-button-list"
                     [] cls \in {"wj-tabs-panel-list", "wj-tabs-button-list"} -> "wj-tabs" [] OTHER -> ""

AttrOf(e, k) == LET M == SelectSeq(e.as, LAMBDA kv : kv[1] = k) IN IF M = <<>> THEN None ELSE Some(M[1][2])
ClassOf(e) == OrElse(AttrOf(e, "class"), "")
FirstWord(s) == BeforeC(s, " ")

(* a script scheme, seen as browsers see it *)
LOCAL Bare(s) == FoldS(LAMBDA a, x : IF x \in WS \/ Code(x) < 33 THEN a ELSE a \o LowC(x), s, "")
ScriptScheme(s) == LET b == Bare(s) IN \E p \in {"javascript:", "data:", "vbscript:"} : Starts(b, p)
FoldToc == "WIKIJUMP.page.listeners.foldToc(event)"
TocButton(e) == e.tag = "a" /\ e.as = <<<<"href", "javascript:;">>, <<"onclick", FoldToc>>>>
AttrFault(e, kv) ==
    IF TocButton(e) THEN {}
    ELSE IF ~(SafeAttribute(kv[1]) \/ kv[1] \in OwnAttributes(e.tag)) THEN {<<"C05", "attribute " \o kv[1] \o " of " \o e.tag>>}
    ELSE IF kv[1] \in {"href", "src"} /\ ScriptScheme(kv[2])
            /\ ~(kv[2] = "javascript:;") /\ ~(e.tag = "img" /\ ClassOf(e) = "wj-user-info-avatar" /\ kv[2] = "AVATAR")
         THEN {<<"C05", "script scheme in " \o kv[1]>>}
    ELSE {}
ScriptFault(e, up) ==
    IF e.tag # "script" THEN {}
    ELSE LET src == OrElse(AttrOf(e, "src"), "") IN
         IF Len(e.as) = 1 /\ (Starts(src, "https://gist.github.com/") \/ Starts(src, "https://gitlab.com/-/snippets/")) /\ up.cls = "wj-embed"
         THEN {} ELSE {<<"C05", "script element">>}

(* ---- nesting ---- *)
NestFault(e, up) ==
    LET own == Owner(e.tag)
        mem == Members(up.tag)
        cls == FirstWord(ClassOf(e))
    IN (IF own # {} /\ up.tag \notin own THEN {<<"C06", e.tag \o " directly within " \o up.tag>>} ELSE {})
       \cup (IF mem # {} /\ e.tag \notin mem THEN {<<"C06", e.tag \o " directly within " \o up.tag>>} ELSE {})
       \cup (IF up.tag = "p" /\ e.tag \in Blocks /\ cls \notin {"wj-image-container", "wj-error-block"}
             THEN {<<"C06", e.tag \o " directly within a paragraph">>} ELSE {})
       \cup (IF e.tag \in Blocks /\ up.inp /\ cls \notin {"wj-image-container", "wj-error-block"} THEN {<<"C06", e.tag \o " within a paragraph, in " \o up.tag \o "." \o up.cls>>} ELSE {})
       \cup (IF ClassOwner(cls) # "" /\ e.tag \in {"div", "wj-tabs-button"} /\ up.cls # ClassOwner(cls) /\ AttrOf(e, "role").some
             THEN {<<"C06", cls \o " out of place">>} ELSE {})

(* ---- numbers and identifiers ---- *)
(* n: the last number given; a number hidden with its bibliography is skipped *)
Next1Of(n, v, hidden) == IF hidden THEN NumOf(v) > n ELSE v = ToString(n + 1)
Numbered(st, c, e) ==
    LET cls == ClassOf(e)
        id == OrElse(AttrOf(e, "data-id"), "?")
        up == Last1(st.stack)
        f(msg) == {<<"C07", msg>>}
    IN CASE e.tag = "wj-footnote-ref-marker" ->
              [fault |-> IF Next1Of(st.fn, id, c.hidden) /\ NumOf(id) <= c.fns THEN {} ELSE f("footnote number " \o id),
               st |-> [st EXCEPT !.fn = IF AllIn(id, Digits) THEN NumOf(id) ELSE @ + 1, !.want = id]]
         [] e.tag = "li" /\ cls = "wj-footnote-list-item" ->
              [fault |-> IF id = ToString(st.item + 1) THEN {} ELSE f("footnote entry " \o id), st |-> [st EXCEPT !.item = @ + 1]]
         [] e.tag = "div" /\ cls = "wj-footnote-list" -> [fault |-> {}, st |-> [st EXCEPT !.item = 0, !.lists = @ + 1]]
         [] e.tag = "wj-footnote-list-item-marker" -> [fault |-> {}, st |-> [st EXCEPT !.want = ToString(st.item)]]
         [] e.tag = "wj-bibliography-ref-marker" ->
              [fault |-> IF OrElse(AttrOf(e, "aria-label"), "") = "Reference " \o id \o "." THEN {} ELSE f("label of citation " \o id),
               st |-> [st EXCEPT !.want = id]]
         [] e.tag = "div" /\ cls = "wj-bibliography bibitems" -> [fault |-> {}, st |-> [st EXCEPT !.entry = 0]]
         [] e.tag = "div" /\ cls = "wj-bibliography-item bibitem" -> [fault |-> {}, st |-> [st EXCEPT !.entry = @ + 1]]
         [] e.tag = "wj-bibliography-item-marker" -> [fault |-> {}, st |-> [st EXCEPT !.want = ToString(st.entry)]]
         [] OTHER -> [fault |-> {}, st |-> st]
(* the number of an equation is the text after its opening parenthesis *)
Generated(id) == \/ Starts(id, "toc") /\ Len(id) > 3 /\ AllIn(From(id, 4), Digits)
                 \/ Starts(id, "wj-id-") \/ Starts(id, "wj-bibliography-item-")

Top(st) == IF st.stack = <<>> THEN [tag |-> "", cls |-> "", inp |-> FALSE] ELSE Last1(st.stack)
Fault(st, fs) == IF fs = {} THEN st ELSE [st EXCEPT !.faults = @ \cup fs]
Open(st, c, e) ==
    LET up == Top(st)
        fs == (IF e.tag \in AllowedTags THEN {} ELSE {<<"C05", "tag " \o e.tag>>}) \cup ScriptFault(e, up) \cup NestFault(e, up)
              \cup UNION {AttrFault(e, e.as[i]) : i \in 1..Len(e.as)}
              \cup (IF st.stack = <<>> /\ (e.tag # "wj-body" \/ st.begun) THEN {<<"C06", "outside of the body">>} ELSE {})
        r == IF st.stack = <<>> THEN [fault |-> {}, st |-> st] ELSE Numbered(st, c, e)
        refs == SelectSeq(e.as, LAMBDA kv : kv[1] \in {"aria-controls", "aria-labelledby"} /\ Generated(kv[2]))
        href == SelectSeq(e.as, LAMBDA kv : kv[1] = "href" /\ Starts(kv[2], "#toc") /\ Generated(From(kv[2], 2)))
        ids == SelectSeq(e.as, LAMBDA kv : kv[1] = "id" /\ Generated(kv[2]))
    IN [Fault(r.st, fs \cup r.fault) EXCEPT
          !.begun = TRUE,
          !.stack = IF e.tag \in VoidTag THEN @ ELSE Append(@, [tag |-> e.tag, cls |-> ClassOf(e), inp |-> e.tag = "p" \/ (up.inp /\ FirstWord(ClassOf(e)) \notin {"wj-footnote-ref-contents", "wj-bibliography-ref-contents"})]),
          !.ids = @ \o Map(LAMBDA kv : kv[2], ids),
          !.refs = @ \o Map(LAMBDA kv : kv[2], refs) \o Map(LAMBDA kv : From(kv[2], 2), href)]
Close(st, e) ==
    IF e.tag \in VoidTag THEN Fault(st, {<<"C06", "void element " \o e.tag \o " closed">>})
    ELSE IF st.stack = <<>> \/ Last1(st.stack).tag # e.tag
    THEN Fault(st, {<<"C06", e.tag \o " closed within " \o Top(st).tag>>})
    ELSE [st EXCEPT !.stack = Front1(@), !.eqopen = (Last1(st.stack).cls = "wj-equation-paren wj-equation-paren-open")]
TextEvent(st, c, e) ==
    LET up == Top(st)
        fs == (IF st.stack = <<>> THEN {<<"C06", "text outside of the body">>} ELSE {})
              \cup (IF Members(up.tag) # {} THEN {<<"C06", "text directly within " \o up.tag>>} ELSE {})
              \cup (IF st.want # "" /\ e.s # st.want THEN {<<"C07", "number shown is " \o e.s \o " instead of " \o st.want>>} ELSE {})
        num == up.cls = "wj-equation-number" /\ st.eqopen
    IN [Fault(st, fs \cup (IF num /\ ~Next1Of(st.eq, e.s, c.hidden) THEN {<<"C07", "equation number " \o e.s>>} ELSE {}))
        EXCEPT !.want = "", !.eq = IF num THEN NumOf(e.s) ELSE @, !.eqopen = FALSE]
(* what follows "<" begins a tag, a comment or the like which is not of mathematics; a lone "<" is text *)
Opens(t) == t # "" /\ (C(t, 1) \in Alnum \cup {"/", "!", "?"}) /\ ~Starts(t, "m") /\ ~Starts(t, "/m")
Raw(st, e) ==
    LET up == Top(st) IN
    IF up.tag = "style" /\ HasStr(e.s, "</") THEN Fault(st, {<<"C05", "closing tag within a style sheet">>})
    ELSE IF up.tag = "script" /\ e.s # "" THEN Fault(st, {<<"C05", "text of a script">>})
    ELSE IF up.tag = "math" /\ \E i \in 1..Len(e.s) : C(e.s, i) = "<" /\ Opens(From(e.s, i + 1))
    THEN Fault(st, {<<"C05", "no mathematics">>})
    ELSE IF up.tag \notin {"style", "script", "math"} THEN Fault(st, {<<"C05", "literal content">>}) ELSE st
Read(st, c, e) ==
    CASE e.k = "o" -> Open(st, c, e) [] e.k = "c" -> Close(st, e) [] e.k = "t" -> TextEvent(st, c, e) [] e.k = "r" -> Raw(st, e)
      [] OTHER -> Fault(st, {<<"C05", "unescaped characters">>})

Initial == [stack |-> <<>>, begun |-> FALSE, faults |-> {}, fn |-> 0, item |-> 0, entry |-> 0, lists |-> 0, eq |-> 0, eqopen |-> FALSE,
            want |-> "", ids |-> <<>>, refs |-> <<>>]
(* at the end: everything closed, and references and identifiers one to one *)
AtEnd(st, c) ==
    LET Count(id) == Cardinality({i \in 1..Len(st.ids) : st.ids[i] = id})
        tocs == SelectSeq(st.ids, LAMBDA id : Starts(id, "toc"))
        unordered == {i \in 1..Len(tocs) : tocs[i] # "toc" \o ToString(i - 1)}
    IN st.faults
       \cup (IF st.stack = <<>> THEN {} ELSE {<<"C06", "not closed: " \o Last1(st.stack).tag>>})
       \cup {<<"C07", "identifier twice: " \o st.ids[i]>> : i \in {i \in 1..Len(st.ids) : Count(st.ids[i]) # 1}}
       \cup (IF c.toc THEN {<<"C07", "no such place: " \o st.refs[i]>> : i \in {i \in 1..Len(st.refs) : Count(st.refs[i]) = 0}} ELSE {})
       \cup (IF ~c.hidden /\ c.toc /\ unordered # {} THEN {<<"C07", "headings out of order">>} ELSE {})
       \cup (IF c.block /\ st.fn > 0 /\ st.lists = 0 THEN {<<"C07", "no list of footnotes">>} ELSE {})
       \cup (IF ~c.hidden /\ st.fn # c.fns THEN {<<"C07", "footnotes without a marker">>} ELSE {})
       \cup (IF st.lists > 0 /\ st.item # c.fns THEN {<<"C07", "footnotes without an entry">>} ELSE {})
Faults(c, events) == AtEnd(FoldLeft(LAMBDA st, e : Read(st, c, e), Initial, events), c)
=============================================================================
