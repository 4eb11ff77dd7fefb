------------------------------- MODULE Parser -------------------------------
(* The parser as a reference model.  A parser state p holds the position in  *)
(* the tokens (p.c.T, which begins with the input-start and ends with the    *)
(* input-end marker), the rule being attempted, what partial elements are    *)
(* accepted, flags, and the items collected so far (html, code, toc, fns,    *)
(* bibs).  An attempt returns either [ok |-> TRUE, p, els, errs, safe] or    *)
(* [ok |-> FALSE, err]; a failed attempt returns no state, so that nothing   *)
(* of it can remain: that is how the specification states C04.               *)
EXTENDS Tree, Depth

CONSTANT Budget        \* attempts allowed per document

MaxDepth == 100

(* ------------------------------------------------------------------ basics *)
Cur(p) == p.c.T[p.pos]
Kind(p) == p.c.T[p.pos].k
KindAt(p, i) == IF i <= p.c.n THEN p.c.T[i].k ELSE "none"
Next1(p) == KindAt(p, p.pos + 1)
Next2(p) == KindAt(p, p.pos + 2)
Is(p, k) == Kind(p) = k

Fail(p, kind) ==
    [ok |-> FALSE, err |-> [kind |-> kind, rule |-> p.rule, token |-> Kind(p), b |-> Cur(p).b, e |-> Cur(p).e]]
Then(r, F(_)) == IF r.ok THEN F(r) ELSE r

Ok(p, els, errs, safe) == [ok |-> TRUE, p |-> p, els |-> els, errs |-> errs, safe |-> safe]
OkD(p, els, errs) == Ok(p, els, errs, SafeEls(els))
Ok1(p, el) == OkD(p, <<el>>, <<>>)
Val(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

NewLineKinds == {"input-start", "line-break", "paragraph-break"}
At(p, i) == [p EXCEPT !.pos = i, !.sol = p.c.T[i - 1].k \in NewLineKinds]
(* one step, where the current token is known not to be the last *)
Adv(p) == At(p, p.pos + 1)
StepN(p, k) == IF p.pos + k <= p.c.n THEN Val(At(p, p.pos + k), "")
               ELSE Fail([p EXCEPT !.pos = p.c.n], "end-of-input")
Opt(p, k) == IF Is(p, k) THEN Adv(p) ELSE p
OptSpace(p) == Opt(p, "whitespace")
OptBreak(p) == Opt(p, "line-break")
Take(p, k, kind) == IF Is(p, k) THEN Val(Adv(p), Cur(p).s) ELSE Fail(p, kind)

(* text of the tokens i..j *)
Slice(p, i, j) == FoldLeft(LAMBDA a, m : a \o p.c.T[i + m - 1].s, "", [m \in 1..(j - i + 1) |-> m])

(* ------------------------------------------------------- block descriptions *)
BD(rule, names, fl) == [rule |-> rule, names |-> names, star |-> "s" \in fl, score |-> "_" \in fl, nl |-> "n" \in fl]
Blocks == {
    BD("block-align-center", {"="}, {"n"}), BD("block-align-justify", {"=="}, {"n"}),
    BD("block-align-left", {"<"}, {"n"}), BD("block-align-right", {">"}, {"n"}),
    BD("block-anchor", {"a", "anchor"}, {"s", "_"}), BD("block-bibcite", {"bibcite"}, {"_"}),
    BD("block-bibliography", {"bibliography"}, {"n"}), BD("block-blockquote", {"blockquote", "quote"}, {"n"}),
    BD("block-bold", {"b", "bold", "strong"}, {}), BD("block-char", {"char", "character"}, {}),
    BD("block-checkbox", {"checkbox"}, {"s"}), BD("block-code", {"code"}, {"n"}),
    BD("block-collapsible", {"collapsible"}, {"n"}), BD("block-date", {"date"}, {}),
    BD("block-del", {"del", "deletion"}, {}), BD("block-div", {"div"}, {"_", "n"}),
    BD("block-embed", {"embed"}, {"n"}), BD("block-equation-ref", {"equation", "eref", "eqref"}, {}),
    BD("block-footnote", {"footnote"}, {}), BD("block-footnote-block", {"footnoteblock"}, {"n"}),
    BD("block-hidden", {"hidden"}, {"n"}), BD("block-html", {"html"}, {"n"}),
    BD("block-ifcategory", {"ifcategory"}, {"n"}), BD("block-iframe", {"iframe"}, {"n"}),
    BD("block-iftags", {"iftags"}, {"n"}),
    BD("block-image", {"image", "=image", "<image", ">image", "f<image", "f>image"}, {}),
    BD("block-include-elements", {"include-elements"}, {"n"}), BD("block-include", {"include"}, {"n"}),
    BD("block-ins", {"ins", "insertion"}, {}), BD("block-invisible", {"invisible"}, {"n"}),
    BD("block-italics", {"i", "italics", "em", "emphasis"}, {}), BD("block-later", {"later"}, {"s", "n"}),
    BD("block-lines", {"lines", "newlines"}, {"n"}), BD("block-list-unordered", {"ul"}, {"_", "n"}),
    BD("block-list-ordered", {"ol"}, {"_", "n"}), BD("block-list-item", {"li"}, {"_", "n"}),
    BD("block-mark", {"mark", "highlight"}, {}), BD("block-math", {"math"}, {"n"}),
    BD("block-module", {"module", "module654"}, {"n"}), BD("block-monospace", {"tt", "mono", "monospace"}, {}),
    BD("block-paragraph", {"p", "paragraph"}, {"n"}), BD("block-radio", {"radio", "radio-button"}, {"s"}),
    BD("block-ruby", {"ruby"}, {"n"}), BD("block-ruby-text", {"rt", "rubytext"}, {"n"}),
    BD("block-ruby-short", {"rb", "ruby2"}, {}), BD("block-size", {"size"}, {}), BD("block-span", {"span"}, {"_"}),
    BD("block-strikethrough", {"s", "strikethrough"}, {}), BD("block-subscript", {"sub", "subscript"}, {}),
    BD("block-superscript", {"sup", "super", "superscript"}, {}), BD("block-table", {"table"}, {"n"}),
    BD("block-table-row", {"row"}, {"n"}), BD("block-table-cell-regular", {"cell"}, {"n"}),
    BD("block-table-cell-header", {"hcell"}, {"n"}), BD("block-tabview", {"tabview", "tabs"}, {"n"}),
    BD("block-tab", {"tab"}, {"n"}), BD("block-target", {"target", "anchortarget"}, {"n"}),
    BD("block-toc", {"toc", "f<toc", "f>toc"}, {"n"}), BD("block-underline", {"u", "underline"}, {}),
    BD("block-user", {"user"}, {"s"})}
LOCAL BlockNames == UNION {b.names : b \in Blocks}
LOCAL BlockMap == [nm \in BlockNames |-> CHOOSE b \in Blocks : nm \in b.names]
NoBlock == BD("none", {}, {})
UnScore(s) == IF Ends(s, "_") THEN Sub(s, 1, Len(s) - 1) ELSE s
BlockNamed(name) == LET k == Lower(UnScore(name)) IN IF k \in BlockNames THEN BlockMap[k] ELSE NoBlock

ModuleRules == [backlinks |-> "module-backlinks", categories |-> "module-categories", css |-> "module-css",
                join |-> "module-join", pagetree |-> "module-page-tree", rate |-> "module-rate"]

(* -------------------------------------------------------------- token rules *)
RulesFor(k) ==
    CASE k \in {"identifier", "string", "other", "right-bracket", "right-parentheses", "pipe"} -> <<"text">>
      [] k = "whitespace" -> <<"underscore-line-break", "list", "text">>
      [] k = "line-break" -> <<"block-skip", "definition-list-skip-newline", "line-break">>
      [] k = "paragraph-break" -> <<"line-break-paragraph">>
      [] k = "left-block" -> <<"block">>
      [] k = "left-block-star" -> <<"block-star">>
      [] k = "left-block-anchor" -> <<"anchor">>
      [] k \in {"left-block-end", "right-block", "right-math", "right-monospace", "right-raw", "right-link", "right-comment"} -> <<>>
      [] k = "left-bracket" -> <<"link-single", "text">>
      [] k = "left-bracket-anchor" -> <<"link-anchor">>
      [] k = "left-bracket-star" -> <<"link-single-new-tab">>
      [] k = "left-link" -> <<"link-triple">>
      [] k = "left-link-star" -> <<"link-triple-new-tab">>
      [] k = "left-parentheses" -> <<"bibcite", "text">>
      [] k = "left-math" -> <<"math">>
      [] k = "double-dash" -> <<"strikethrough-dash", "dash">>
      [] k = "triple-dash" -> <<"horizontal-rule">>
      [] k = "double-tilde" -> <<"strikethrough-tilde">>
      [] k = "left-double-angle" -> <<"double-angle">>
      [] k \in {"clear-float-both", "clear-float-left", "clear-float-right"} -> <<"clear-float">>
      [] k = "equals" -> <<"center", "text">>
      [] k = "colon" -> <<"definition-list", "text">>
      [] k = "underscore" -> <<"underscore-line-break", "text">>
      [] k = "quote" -> <<"blockquote", "double-angle", "text">>
      [] k = "heading" -> <<"header", "text">>
      [] k \in {"bold", "italics", "underline", "superscript", "subscript", "color", "email", "url"} -> <<k>>
      [] k = "left-monospace" -> <<"monospace">>
      [] k \in {"raw", "left-raw"} -> <<"raw">>
      [] k \in {"bullet-item", "numbered-item"} -> <<"list", "text">>
      [] k \in {"table-column", "table-column-left", "table-column-right", "table-column-center", "table-column-title"} -> <<"table">>
      [] k = "variable" -> <<"variable", "text">>
      [] k = "left-comment" -> <<"comment">>
      [] k \in {"input-start", "input-end"} -> <<"null">>
StartOfLineRules == {"blockquote", "center", "clear-float", "definition-list", "header", "horizontal-rule", "list", "table"}

RECURSIVE Consume(_)

(* A position is left behind by every successful attempt *)
Moved(old, q) == IF q.pos # old.pos THEN q ELSE Adv(q)

(* ---------------------------------------------------------------- collecting *)
(* A condition is a set of token kinds and a set of pairs of kinds.          *)
Cond(ones, pairs) == [ones |-> ones, pairs |-> pairs]
Ones(S) == Cond(S, {})
Holds(p, cd) == Kind(p) \in cd.ones \/ (cd.pairs # {} /\ <<Kind(p), Next1(p)>> \in cd.pairs)
EndOfLine == Ones({"line-break", "paragraph-break", "input-end"})
Breaks == Ones({"paragraph-break", "line-break"})
SpaceOrBreaks == Ones({"whitespace", "paragraph-break", "line-break"})

RECURSIVE CollectLoop(_)
CollectLoop(st) ==
    LET p == st.p IN
    IF Holds(p, st.close)
    THEN [ok |-> TRUE, p |-> IF Is(p, "input-end") THEN p ELSE Adv(p), els |-> st.els, errs |-> st.errs,
          safe |-> st.safe, last |-> p.pos]
    ELSE IF Holds(p, st.invalid) THEN Fail(p, "rule-failed")
    ELSE IF Is(p, "input-end") THEN Fail(p, "end-of-input")
    ELSE LET r == Consume(p) IN
         IF ~r.ok THEN r
         ELSE CollectLoop([st EXCEPT !.p = Moved(p, r.p), !.els = @ \o r.els, !.errs = @ \o r.errs, !.safe = @ /\ r.safe])
Collect(p, close, invalid) ==
    CollectLoop([p |-> p, close |-> close, invalid |-> invalid, els |-> <<>>, errs |-> <<>>, safe |-> TRUE])
CollectIn(p, type, as, close, invalid) ==
    Then(Collect(p, close, invalid),
         LAMBDA r : Ok(r.p, <<Container(type, as, r.els)>>, r.errs, r.safe /\ SafeType(type)))

(* the text up to a closing token: [v, last] *)
CollectText(p, close, invalid, kind) ==
    LET stop == CHOOSE i \in p.pos..p.c.n :
                   LET q == [p EXCEPT !.pos = i] IN
                   /\ Holds(q, close) \/ Holds(q, invalid) \/ i = p.c.n
                   /\ \A j \in p.pos..(i - 1) : LET z == [p EXCEPT !.pos = j] IN ~Holds(z, close) /\ ~Holds(z, invalid)
        q == IF stop = p.pos THEN p ELSE At(p, stop)
    IN IF Holds(q, close)
       THEN [ok |-> TRUE, p |-> IF stop = p.c.n THEN q ELSE Adv(q), v |-> Slice(p, p.pos, stop - 1), last |-> Kind(q)]
       ELSE IF Holds(q, invalid) THEN Fail(q, kind) ELSE Fail(q, "end-of-input")

(* ----------------------------------------------------------------- paragraphs *)
(* a stack: the finished elements and the paragraph being written *)
EndPar(st) == IF st.cur = <<>> THEN st
              ELSE [st EXCEPT !.fin = Append(@, Paragraph(st.cur)), !.cur = <<>>]
PushEl(st, e, safe) == IF safe THEN [st EXCEPT !.cur = Append(@, e)]
                       ELSE LET z == EndPar(st) IN [z EXCEPT !.fin = Append(@, e)]
PopBreak(st) == IF st.cur # <<>> /\ Last1(st.cur) = LineBreakN THEN [st EXCEPT !.cur = Front1(@)] ELSE st

BlockEnd(p, b, first) ==      \* the position after an end tag of block b, if one stands here
    LET p1 == IF b.nl /\ ~first THEN OptBreak(p) ELSE p IN
    IF ~Is(p1, "left-block-end") THEN None
    ELSE LET p2 == OptSpace(OptSpace(Opt(OptSpace(Adv(p1)), "left-block")))
             nm == CollectText(p2, Ones({"whitespace", "line-break", "paragraph-break", "right-block"}), Ones({}), "x")
         IN IF ~nm.ok THEN None
            ELSE LET inHead == nm.last # "right-block"
                     p3 == IF inHead THEN OptSpace(nm.p) ELSE nm.p
                     fits == Lower(UnScore(Trim(nm.v))) \in b.names
                 IN IF inHead THEN (IF Is(p3, "right-block") /\ fits THEN [some |-> TRUE, v |-> Adv(p3)] ELSE None)
                    ELSE IF fits THEN [some |-> TRUE, v |-> p3] ELSE None

RECURSIVE ParLoop(_)
ParLoop(st) ==      \* st: p, b (a block, or NoBlock for the page), first, fin, cur, errs
    LET p == st.p IN
    IF Is(p, "input-end") THEN (IF st.b.names = {} THEN [st EXCEPT !.ok = TRUE] ELSE Fail(p, "end-of-input"))
    ELSE IF Is(p, "paragraph-break") THEN ParLoop([EndPar(st) EXCEPT !.p = Adv(p)])
    ELSE LET end == IF st.b.names = {} THEN None ELSE BlockEnd(p, st.b, st.first) IN
         IF end.some THEN [st EXCEPT !.p = end.v]
         ELSE LET r == Consume(p) IN
              IF ~r.ok THEN r
              ELSE ParLoop([FoldLeft(LAMBDA s, e : IF s.cur = <<>> /\ e = LineBreakN THEN s ELSE PushEl(s, e, r.safe), st, r.els)
                            EXCEPT !.p = r.p, !.errs = @ \o r.errs, !.first = FALSE])
Paragraphs(p, b) ==
    LET r == ParLoop([ok |-> TRUE, p |-> p, b |-> b, first |-> TRUE, fin |-> <<>>, cur |-> <<>>, errs |-> <<>>])
    IN IF ~r.ok THEN r ELSE OkD(r.p, EndPar(r).fin, r.errs)

(* ------------------------------------------------------------------ block bodies *)
RECURSIVE PlainLoop(_)
PlainLoop(st) ==
    LET end == BlockEnd(st.p, st.b, st.first) IN
    IF end.some THEN Ok(end.v, st.els, st.errs, st.safe)
    ELSE LET r == Consume(st.p) IN
         IF ~r.ok THEN r
         ELSE LET moved == r.p.pos # st.p.pos IN
              IF ~moved /\ r.p.pos = r.p.c.n THEN Fail(r.p, "end-of-input")
              ELSE PlainLoop([st EXCEPT !.p = Moved(st.p, r.p), !.els = @ \o r.els, !.errs = @ \o r.errs,
                                        !.safe = @ /\ r.safe, !.first = FALSE])
Plain(p, b) == PlainLoop([p |-> p, b |-> b, first |-> TRUE, els |-> <<>>, errs |-> <<>>, safe |-> TRUE])
Body(p, b, par) == IF par THEN Paragraphs(p, b) ELSE Plain(p, b)

BodyText(p, b) ==
    LET E(i) == BlockEnd(IF i = p.pos THEN p ELSE At(p, i), b, i = p.pos)
        Hits == {i \in p.pos..p.c.n : KindAt(p, i) = "left-block-end" \/ (KindAt(p, i) = "line-break" /\ KindAt(p, i + 1) = "left-block-end")}
        Ends1 == {i \in Hits : E(i).some}
    IN IF Ends1 = {} THEN Fail([p EXCEPT !.pos = p.c.n], "end-of-input")
       ELSE LET i == CHOOSE i \in Ends1 : \A j \in Ends1 : i <= j
            IN Val(E(i).v, Slice(p, p.pos, i - 1))

(* ------------------------------------------------------------------ block heads *)
NameEnd == Ones({"whitespace", "line-break", "paragraph-break", "right-block"})
BlockName(p, kind) ==        \* [v: name, inHead]
    Then(CollectText(p, NameEnd, Ones({}), kind),
         LAMBDA r : [ok |-> TRUE, p |-> r.p, v |-> Trim(r.v), inHead |-> r.last # "right-block"])

HeadEnd(p, b, inHead) ==
    IF inHead /\ ~Is(p, "right-block") THEN Fail(p, "block-missing-close-brackets")
    ELSE LET q == IF inHead THEN Adv(p) ELSE p IN Val(IF b.nl THEN OptBreak(q) ELSE q, "")

KeyChars == Alnum \cup {"_", "-"}
SpaceAny == {"whitespace", "line-break", "paragraph-break", "equals"}
RECURSIVE ArgLoop(_, _)
ArgLoop(p0, args) ==
    LET R[i \in p0.pos..p0.c.n] == IF KindAt(p0, i) \in SpaceAny THEN R[i + 1] ELSE i
        k0 == R[p0.pos]
        p1 == IF k0 = p0.pos THEN p0 ELSE At(p0, k0)
        Q[i \in k0..p0.c.n] == IF KindAt(p0, i) \notin (SpaceAny \cup {"right-block"}) /\ AnyIn(p0.c.T[i].s, KeyChars) THEN Q[i + 1] ELSE i
        k1 == Q[k0]
        p2 == IF k1 = k0 THEN p1 ELSE At(p0, k1)
    IN IF Is(p2, "right-block") THEN Val(p2, args)
       ELSE IF Kind(p2) \notin SpaceAny THEN Fail(p2, "block-malformed-arguments")
       ELSE Then(Take(OptSpace(p2), "equals", "block-malformed-arguments"),
              LAMBDA e : Then(Take(OptSpace(e.p), "string", "block-malformed-arguments"),
                LAMBDA s : ArgLoop(s.p, ArgPut(args, Slice(p0, k0, k1 - 1), Unquote(s.v)))))
HeadMap(p, b, inHead) ==
    Then(IF inHead THEN ArgLoop(p, <<>>) ELSE Val(p, <<>>),
         LAMBDA r : Then(HeadEnd(r.p, b, inHead), LAMBDA z : Val(z.p, r.v)))
HeadNameMap(p, b, inHead) ==     \* [v: arguments, name]
    IF ~inHead THEN Fail(p, "block-missing-name")
    ELSE Then(BlockName(p, "module-missing-name"),
              LAMBDA nm : Then(HeadMap(nm.p, b, nm.inHead),
                LAMBDA r : [ok |-> TRUE, p |-> r.p, v |-> r.v, name |-> nm.v]))
(* the text up to the end of the head, converted by F (which is given the    *)
(* state and an optional text)                                               *)
HeadValue(p, b, inHead, F(_, _)) ==
    Then(IF inHead THEN CollectText(p, Ones({"right-block"}), Breaks, "block-malformed-arguments") ELSE [ok |-> TRUE, p |-> p, v |-> ""],
         LAMBDA r : Then(F(r.p, IF inHead THEN Some(r.v) ELSE None),
            LAMBDA c : Then(HeadEnd(r.p, b, FALSE), LAMBDA z : Val(z.p, c.v))))
HeadNone(p, b, inHead) == HeadEnd(OptSpace(p), b, inHead)

Required(p, o) == IF o.some THEN Val(p, o.v) ELSE Fail(p, "block-missing-arguments")
Trimmed(p, o) == IF o.some THEN Val(p, Trim(o.v)) ELSE Fail(p, "block-missing-arguments")
AttrsIn(p, args) == Attrs(Attributes(p.c.uni, p.c.isolate, args))
MaybeIsolate(p, s) == IF p.c.isolate THEN Isolated(s) ELSE s

(* -------------------------------------------------- simple container blocks *)
PlainContainer(p, b, type, inHead) ==
    Then(HeadMap(p, b, inHead),
      LAMBDA h : Then(Plain(h.p, b),
        LAMBDA r : Ok(r.p, <<Container(type, AttrsIn(p, h.v), r.els)>>, r.errs, r.safe)))
ParContainer(p, b, type, inHead) ==
    Then(HeadMap(p, b, inHead),
      LAMBDA h : Then(Paragraphs(h.p, b),
        LAMBDA r : OkD(r.p, <<Container(type, AttrsIn(p, h.v), r.els)>>, r.errs)))
AlignBlock(p, b, al, inHead) ==
    Then(HeadNone(p, b, inHead),
      LAMBDA h : Then(Paragraphs(h.p, b),
        LAMBDA r : OkD(r.p, <<N("container", <<<<"type", "align">>, <<"align", al>>>>, r.els)>>, r.errs)))
SimpleBlocks == [x \in {"block-bold", "block-italics", "block-underline", "block-strikethrough", "block-superscript",
                        "block-subscript", "block-mark", "block-ins", "block-del", "block-monospace", "block-hidden",
                        "block-invisible"} |->
    CASE x = "block-ins" -> "insertion" [] x = "block-del" -> "deletion" [] OTHER -> From(x, 7)]

(* ---------------------------------------------------------------- other blocks *)
Accepting(p, what) == [p EXCEPT !.acc = what]

AnchorBlock(p, b, star, score, inHead) ==
    Then(HeadMap(p, b, inHead),
      LAMBDA h : Then(Plain(h.p, b),
        LAMBDA r : Ok(r.p, <<N("anchor", (IF star THEN <<<<"target", "new-tab">>>> ELSE <<>>) \o AttrsIn(p, h.v),
                               IF score THEN StripBreaks(r.els) ELSE r.els)>>, r.errs, r.safe)))
SpanBlock(p, b, score, inHead) ==
    Then(HeadMap(p, b, inHead),
      LAMBDA h : Then(Plain(h.p, b),
        LAMBDA r : Ok(r.p, <<Container("span", AttrsIn(p, h.v), IF score THEN StripBreaks(r.els) ELSE r.els)>>, r.errs, r.safe)))
DivBlock(p, b, score, inHead) ==
    Then(HeadMap(p, b, inHead),
      LAMBDA h : Then(Body(h.p, b, ~score),
        LAMBDA r : OkD(r.p, <<Container("div", AttrsIn(p, h.v), r.els)>>, r.errs)))
SizeBlock(p, b, inHead) ==
    Then(HeadValue(p, b, inHead, Required),
      LAMBDA h : Then(Plain(h.p, b),
        LAMBDA r : Ok(r.p, <<Container("size", <<<<"@style", "font-size: " \o h.v \o ";">>>>, r.els)>>, r.errs, r.safe)))
ParagraphBlock(p, b, inHead) ==
    Then(HeadMap(p, b, inHead),
      LAMBDA h : Then(Paragraphs(h.p, b),
        LAMBDA r : Ok(r.p, Map(LAMBDA e : IF IsContainer(e, "paragraph")
                                       THEN Container("paragraph", AttrsIn(p, h.v), e.c) ELSE e, r.els), r.errs, r.els = <<>>)))

GetBool(p, args, k, default) ==
    LET v == ArgBool(args, k, default) IN IF v = "?" THEN Fail(p, "block-malformed-arguments") ELSE Val(p, v)

RECURSIVE Gathers(_)
Gathers(e) == e.n \in {"footnote", "code", "html", "bibliography-block"} \/ IsContainer(e, "header")
              \/ \E i \in 1..Len(e.c) : Gathers(e.c[i])
BibliographyBlock(p, b, inHead) ==
    Then(HeadMap(p, b, inHead), LAMBDA h :
      Then(GetBool(h.p, h.v, "hide", "false"), LAMBDA hide :
        Then(Plain(h.p, b), LAMBDA r :
          IF \E i \in 1..Len(r.els) : r.els[i].n # "definition-list" /\ ~IsBlank(r.els[i])
          THEN Fail(r.p, "bibliography-contains-non-definition-list")
          ELSE LET defs == Flat(Map(LAMBDA e : e.c, r.els))
                   new == Map(LAMBDA d : [label |-> Get(d, "key"), els |-> d.c[2].c], defs)
               IN IF \E i \in 1..Len(defs) : Gathers(defs[i].c[1])
                  THEN Fail(r.p, "bibliography-contains-non-definition-list")
                  ELSE OkD([r.p EXCEPT !.bibs = Append(@, new)],
                      <<N("bibliography-block", <<<<"index", ToString(Len(r.p.bibs))>>>> \o OptF("title", ArgGet(h.v, "title"))
                                                \o StrF("hide", hide.v), <<>>)>>, r.errs))))

CodeBlock(p, b, inHead) ==
    Then(HeadMap(p, b, inHead), LAMBDA h :
      Then(BodyText(h.p, b), LAMBDA r :
        LET ty == ArgGet(h.v, "type")
            nm0 == ArgGet(h.v, "name")
            nm == IF nm0.some THEN Some(Normalize(p.c.uni, nm0.v)) ELSE None
        IN IF nm.some /\ \E i \in 1..Len(r.p.code) : r.p.code[i].name = nm
           THEN Fail(r.p, "code-non-unique-name")
           ELSE OkD([r.p EXCEPT !.code = Append(@, [contents |-> r.v, name |-> nm])],
                    <<N("code", <<<<"contents", r.v>>>> \o OptF("language", IF ty.some THEN Some(Lower(ty.v)) ELSE None), <<>>)>>, <<>>)))

HideLocation(o) ==
    IF ~o.some THEN <<"true", "false">>
    ELSE LET v == Lower(Trim(o.v)) IN
         CASE v = "top" -> <<"true", "false">> [] v = "bottom" -> <<"false", "true">> [] v = "both" -> <<"true", "true">>
           [] v \in {"neither", "none"} -> <<"false", "false">> [] OTHER -> <<"?", "?">>
CollapsibleBlock(p, b, inHead) ==
    Then(HeadMap(p, b, inHead), LAMBDA h :
      Then(GetBool(h.p, h.v, "folded", "true"), LAMBDA fo :
        LET hl == HideLocation(ArgGet(h.v, "hidelocation"))
            rest == ArgDrop(ArgDrop(ArgDrop(ArgDrop(h.v, "show"), "hide"), "folded"), "hidelocation")
        IN IF hl[1] = "?" THEN Fail(h.p, "block-malformed-arguments")
           ELSE Then(Paragraphs(h.p, b), LAMBDA r :
                OkD(r.p, <<N("collapsible", <<<<"start-open", IF fo.v = "true" THEN "false" ELSE "true">>>>
                              \o OptF("show-text", ArgGet(h.v, "show")) \o OptF("hide-text", ArgGet(h.v, "hide"))
                              \o <<<<"show-top", hl[1]>>, <<"show-bottom", hl[2]>>>> \o AttrsIn(p, rest), r.els)>>, r.errs))))

CharOf(c, v) ==     \* numeric entities within printable ASCII; others come from the table
    IF v \in DOMAIN c.ents THEN Some(c.ents[v]) ELSE None
CharBlock(p, b, inHead) ==
    Then(HeadValue(p, b, inHead,
           LAMBDA q, o : IF ~o.some THEN Fail(q, "block-missing-arguments")
                         ELSE LET s1 == Trim(o.v)
                                  s2 == IF Starts(s1, "&") THEN From(s1, 2) ELSE s1
                                  s3 == IF Ends(s2, ";") THEN Sub(s2, 1, Len(s2) - 1) ELSE s2
                                  r == CharOf(q.c, s3)
                              IN IF r.some THEN Val(q, r.v) ELSE Fail(q, "block-malformed-arguments")),
         LAMBDA r : Ok1(r.p, TextN(r.v)))

DateBlock(p, b, inHead) ==
    Then(HeadNameMap(p, b, inHead), LAMBDA h :
      Then(GetBool(h.p, h.v, "hover", "true"), LAMBDA hov :
        LET tz == ArgGet(h.v, "tz")
            key == h.name \o (IF tz.some THEN "|" \o tz.v ELSE "")
            d == IF key \in DOMAIN p.c.dates THEN p.c.dates[key] ELSE "?"
        IN IF d = "?" THEN Fail(h.p, "unknown-date")
           ELSE IF d = "" THEN Fail(h.p, "block-malformed-arguments")
           ELSE Ok1(h.p, N("date", <<<<"value", d>>>> \o OptF("format", ArgGet(h.v, "format")) \o StrF("hover", hov.v), <<>>))))

EmbedBlock(p, b, inHead) ==
    Then(HeadNameMap(p, b, inHead), LAMBDA h :
      LET k == Lower(h.name)
          v == ArgGet(h.v, "video")
      IN IF k \notin {"youtube", "vimeo"} THEN Fail(h.p, "no-such-embed")
         ELSE IF ~v.some THEN Fail(h.p, "block-missing-arguments")
         ELSE Ok1(h.p, N("embed", <<<<"embed", k>>, <<"video-id", v.v>>>>, <<>>)))

FootnoteBlock(p, b, inHead) ==
    IF p.infn THEN Fail(p, "footnotes-nested")
    ELSE Then(HeadNone([p EXCEPT !.infn = TRUE], b, inHead), LAMBDA h :
           Then(Paragraphs(h.p, b), LAMBDA r :
             LET els == IF Len(r.els) = 1 /\ IsContainer(r.els[1], "paragraph") THEN r.els[1].c ELSE r.els
             IN OkD([r.p EXCEPT !.fns = Append(@, els), !.infn = FALSE], <<N("footnote", <<>>, <<>>)>>, r.errs)))
FootnoteList(p, b, inHead) ==
    IF p.infn THEN Fail(p, "footnotes-nested") ELSE
    Then(HeadMap(p, b, inHead), LAMBDA h :
      Then(GetBool(h.p, h.v, "hide", "false"), LAMBDA hide :
        IF ArgDrop(ArgDrop(h.v, "title"), "hide") # <<>> THEN Fail(h.p, "block-malformed-arguments")
        ELSE Ok1([h.p EXCEPT !.hasfb = TRUE],
                 N("footnote-block", OptF("title", ArgGet(h.v, "title")) \o StrF("hide", hide.v), <<>>))))

HtmlBlock(p, b, inHead) ==
    Then(HeadNone(p, b, inHead), LAMBDA h :
      Then(BodyText(h.p, b), LAMBDA r :
        Ok1([r.p EXCEPT !.html = Append(@, r.v)], N("html", <<<<"contents", r.v>>>>, <<>>))))

(* content on a condition: as if written without it, or not at all *)
Conditional(p, b, inHead, Test(_)) ==
    Then(HeadValue(p, b, inHead, Required), LAMBDA h :
      Then(Plain(Accepting(h.p, p.pacc), b), LAMBDA r :
        IF Test(CondParse(h.v)) THEN Ok(r.p, r.els, r.errs, r.safe)
        ELSE Ok([r.p EXCEPT !.html = h.p.html, !.code = h.p.code, !.toc = h.p.toc, !.fns = h.p.fns,
                            !.bibs = h.p.bibs, !.hasfb = h.p.hasfb], <<>>, r.errs, r.safe)))
IfTagsBlock(p, b, inHead) == Conditional(p, b, inHead, LAMBDA cs : CondHolds(cs, p.c.tags))
IfCategoryBlock(p, b, inHead) ==
    Conditional(p, b, inHead, LAMBDA cs : CondHolds(Map(LAMBDA x : IF x[1] = "+" THEN <<"", x[2]>> ELSE x, cs),
                                                    <<p.c.cat>>))

IframeBlock(p, b, inHead) ==
    Then(HeadNameMap(p, b, inHead), LAMBDA h :
      IF ~IsUrl(h.name) THEN Fail(h.p, "block-malformed-arguments")
      ELSE Ok1(h.p, N("iframe", <<<<"url", h.name>>>> \o AttrsIn(p, h.v), <<>>)))

FloatOf(name) ==    \* the alignment written in the name of a block: [some, align, float]
    LET x == IF Starts(Lower(name), "f") THEN From(name, 2) ELSE name
        fl == x # name
        c == IF x = "" THEN "" ELSE C(x, 1)
    IN CASE c = "<" -> [some |-> TRUE, align |-> "left", float |-> fl]
         [] c = ">" -> [some |-> TRUE, align |-> "right", float |-> fl]
         [] c = "=" /\ ~fl -> [some |-> TRUE, align |-> "center", float |-> FALSE]
         [] OTHER -> [some |-> FALSE, align |-> "", float |-> FALSE]
ImageSource(s) ==
    IF IsUrl(s) THEN Some(<<<<"source", "url">>, <<"source-url", s>>>>)
    ELSE LET parts == Split(IF Starts(s, "/") THEN From(s, 2) ELSE s, "/") IN
         CASE Len(parts) = 1 -> Some(<<<<"source", "file1">>, <<"source-file", parts[1]>>>>)
           [] Len(parts) = 2 -> Some(<<<<"source", "file2">>, <<"source-page", parts[1]>>, <<"source-file", parts[2]>>>>)
           [] Len(parts) = 3 -> Some(<<<<"source", "file3">>, <<"source-site", parts[1]>>, <<"source-page", parts[2]>>, <<"source-file", parts[3]>>>>)
           [] OTHER -> None
ImageBlock(p, b, name, inHead) ==
    Then(HeadNameMap(p, b, inHead), LAMBDA h :
      LET src == ImageSource(h.name)
          link == ArgGet(h.v, "link")
          al == FloatOf(name)
      IN IF ~src.some THEN Fail(h.p, "block-malformed-arguments")
         ELSE Ok1(h.p, N("image", src.v \o (IF link.some THEN TargetF(LinkTarget(link.v)) ELSE <<>>)
                          \o (IF al.some THEN <<<<"align", al.align>>>> \o BoolF("float", al.float) ELSE <<>>)
                          \o AttrsIn(p, ArgDrop(h.v, "link")), <<>>)))

IncludeElementsBlock(p, b, inHead) ==
    IF ~p.c.pagesyn THEN Fail(p, "not-supported-mode")
    ELSE Then(HeadNameMap(p, b, inHead), LAMBDA h :
           LET r == PageRefParse(h.name) IN
           IF ~r.ok THEN Fail(h.p, "block-malformed-arguments")
           ELSE Ok1(h.p, N("include", StrF("paragraph-safe", "false") \o OptF("site", r.site) \o StrF("page", r.page)
                            \o Map(LAMBDA kv : <<"$" \o kv[1], kv[2]>>, SortedArgs(h.v)),
                           <<TextN("<INCLUDED PAGE (ELEMENTS)>")>>)))
IncludeBlock(p) == IF ~p.c.pagesyn THEN Fail(p, "not-supported-mode") ELSE Fail(p, "invalid-include")

LinesBlock(p, b, inHead) ==
    Then(HeadValue(p, b, inHead,
           LAMBDA q, o : IF ~o.some THEN Fail(q, "block-missing-arguments")
                         ELSE LET n == NonZero(Trim(o.v)) IN
                              IF n = "" \/ (Len(n) > 2 /\ n # "100") THEN Fail(q, "block-malformed-arguments") ELSE Val(q, n)),
         LAMBDA r : Ok1(r.p, N("line-breaks", <<<<"n", r.v>>>>, <<>>)))

ItemBlock(p, b, score, inHead) ==
    Then(HeadMap(p, b, inHead), LAMBDA h :
      Then(Plain(h.p, b), LAMBDA r :
        Ok(r.p, <<N("p:list-item", AttrsIn(p, h.v), IF score THEN StripBreaks(r.els) ELSE r.els)>>, r.errs, FALSE)))
ListBlock(p, b, type, score, inHead) ==
    Then(HeadMap(Accepting(p, "list-item"), b, inHead), LAMBDA h :
      Then(Plain(h.p, b), LAMBDA r :
        LET els == IF score THEN StripBreaks(r.els) ELSE r.els
            bad == \E i \in 1..Len(els) : els[i].n \notin {"p:list-item", "list"} /\ ~IsBlank(els[i])
            kept == SelectSeq(els, LAMBDA e : ~IsBlank(e))
        IN IF els = <<>> THEN Fail(r.p, "list-empty")
           ELSE IF bad THEN Fail(r.p, "list-contains-non-item")
           ELSE Ok(r.p, <<N("list", <<<<"type", type>>>> \o AttrsIn(p, h.v),
                            Map(LAMBDA e : IF e.n = "list" THEN N("sub-list", <<>>, <<e>>)
                                         ELSE N("item", e.a, e.c), kept))>>, r.errs, FALSE)))

MathBlock(p, b, inHead) ==
    Then(HeadValue(p, b, inHead, LAMBDA q, o : Val(q, IF o.some THEN Some(Trim(o.v)) ELSE None)), LAMBDA h :
      Then(BodyText(h.p, b), LAMBDA r :
        IF Trim(r.v) = "" THEN Fail(r.p, "rule-failed")
        ELSE Ok1(r.p, N("math", OptF("name", h.v) \o StrF("latex-source", Trim(r.v)), <<>>))))

RadioBlock(p, b, star, inHead) ==
    Then(HeadNameMap(p, b, inHead), LAMBDA h :
      Ok1(OptSpace(h.p), N("radio-button", StrF("name", h.name) \o BoolF("checked", star) \o AttrsIn(p, h.v), <<>>)))
CheckboxBlock(p, b, star, inHead) ==
    Then(HeadMap(p, b, inHead), LAMBDA h :
      Ok1(OptSpace(h.p), N("check-box", BoolF("checked", star) \o AttrsIn(p, h.v), <<>>)))

RubyBlock(p, b, inHead) ==
    Then(HeadMap(Accepting(p, "ruby"), b, inHead), LAMBDA h :
      Then(Plain(h.p, b), LAMBDA r :
        Ok(r.p, <<Container("ruby", AttrsIn(p, h.v),
              StripBlank(Map(LAMBDA e : IF e.n = "p:ruby-text"
                                     THEN N("container", <<<<"type", "ruby-text">>>> \o e.a, e.c) ELSE e, r.els)))>>,
           r.errs, r.safe)))
RubyTextBlock(p, b, inHead) ==
    Then(HeadMap(p, b, inHead), LAMBDA h :
      Then(Plain(h.p, b), LAMBDA r : Ok(r.p, <<N("p:ruby-text", AttrsIn(p, h.v), StripBlank(r.els))>>, r.errs, r.safe)))
RubyShortBlock(p, b, inHead) ==
    Then(HeadValue(p, b, inHead,
           LAMBDA q, o : IF ~o.some THEN Fail(q, "block-missing-arguments")
                         ELSE IF Len(Split(o.v, "|")) # 2 THEN Fail(q, "block-malformed-arguments")
                         ELSE Val(q, Split(o.v, "|"))),
         LAMBDA r : Ok1(r.p, Container("ruby", <<>>, <<TextN(Trim(r.v[1])), Container("ruby-text", <<>>, <<TextN(Trim(r.v[2]))>>)>>)))

TabBlock(p, b, inHead) ==
    Then(HeadValue(p, b, inHead, Required), LAMBDA h :
      Then(Paragraphs(h.p, b), LAMBDA r : Ok(r.p, <<N("p:tab", StrF("label", h.v), r.els)>>, r.errs, FALSE)))
TabViewBlock(p, b, inHead) ==
    Then(HeadNone(Accepting(p, "tab"), b, inHead), LAMBDA h :
      Then(Plain(h.p, b), LAMBDA r :
        LET kept == SelectSeq(r.els, LAMBDA e : ~IsBlank(e))
        IN IF \E i \in 1..Len(kept) : kept[i].n # "p:tab" THEN Fail(r.p, "tab-view-contains-non-tab")
           ELSE IF kept = <<>> THEN Fail(r.p, "tab-view-empty")
           ELSE Ok(r.p, <<N("tab-view", <<>>, Map(LAMBDA e : N("tab", e.a, e.c), kept))>>, r.errs, FALSE)))

TableBlock(p, b, inHead) ==
    Then(HeadMap(Accepting(p, "table-row"), b, inHead), LAMBDA h :
      Then(Plain(h.p, b), LAMBDA r :
        LET kept == SelectSeq(r.els, LAMBDA e : ~IsBlank(e))
        IN IF \E i \in 1..Len(kept) : kept[i].n # "p:table-row" THEN Fail(r.p, "table-contains-non-row")
           ELSE Ok(r.p, <<N("table", AttrsIn(p, h.v), Map(LAMBDA e : N("row", e.a, e.c), kept))>>, r.errs, FALSE)))
RowBlock(p, b, inHead) ==
    Then(HeadMap(Accepting(p, "table-cell"), b, inHead), LAMBDA h :
      Then(Plain(h.p, b), LAMBDA r :
        LET kept == SelectSeq(r.els, LAMBDA e : ~IsBlank(e))
        IN IF \E i \in 1..Len(kept) : kept[i].n # "p:table-cell" THEN Fail(r.p, "table-row-contains-non-cell")
           ELSE Ok(r.p, <<N("p:table-row", AttrsIn(p, h.v), Map(LAMBDA e : N("cell", e.a, e.c), kept))>>, r.errs, FALSE)))
CellBlock(p, b, header, inHead) ==
    Then(HeadMap(p, b, inHead), LAMBDA h :
      Then(Plain(h.p, b), LAMBDA r :
        LET as == Attributes(p.c.uni, p.c.isolate, h.v)
            span == ArgGet(as, "colspan")
            n == IF span.some THEN NonZero(span.v) ELSE "1"
        IN Ok(r.p, <<N("p:table-cell", BoolF("header", header) \o StrF("column-span", IF n = "" THEN "1" ELSE n)
                       \o Attrs(ArgDrop(as, "colspan")), StripBlank(r.els))>>, r.errs, FALSE)))

TargetBlock(p, b, inHead) ==
    Then(HeadValue(p, b, inHead, Trimmed), LAMBDA h :
      IF h.v = "" \/ HasC(h.v, " ") THEN Fail(h.p, "block-missing-arguments")
      ELSE Ok1(h.p, Leaf("anchor-name", MaybeIsolate(p, h.v))))
TocBlock(p, b, name, inHead) ==
    IF ~p.c.pagesyn THEN Fail(p, "not-supported-mode")
    ELSE Then(HeadMap(p, b, inHead), LAMBDA h :
           LET al == FloatOf(name) IN
           Ok(h.p, <<N("table-of-contents", (IF al.some THEN <<<<"align", al.align>>>> ELSE <<>>) \o AttrsIn(p, h.v), <<>>)>>, <<>>, FALSE))

ModuleBlock(p, b, inHead) ==
    IF ~p.c.pagesyn THEN Fail(p, "not-supported-mode")
    ELSE Then(HeadNameMap(p, b, inHead), LAMBDA h :
      LET k == Lower(h.name)
          q == [h.p EXCEPT !.rule = ModuleRules[k]]
          Mod(fields) == Ok(q, <<N("module", fields, <<>>)>>, <<>>, FALSE)
      IN IF k \notin DOMAIN ModuleRules THEN Fail(h.p, "no-such-module")
         ELSE CASE k = "backlinks" -> Mod(<<<<"module", "backlinks">>>> \o OptF("page", ArgGet(h.v, "page")))
                [] k = "categories" -> Then(GetBool(q, h.v, "includeHidden", "false"),
                                            LAMBDA v : Mod(<<<<"module", "categories">>, <<"include-hidden", v.v>>>>))
                [] k = "css" -> Then(BodyText(q, b), LAMBDA r : Ok(r.p, <<Leaf("style", r.v)>>, <<>>, FALSE))
                [] k = "join" -> Mod(<<<<"module", "join">>>> \o OptF("button-text", ArgGet(h.v, "button"))
                                     \o AttrsIn(p, ArgDrop(h.v, "button")))
                [] k = "pagetree" ->
                     LET d == ArgGet(h.v, "depth")
                         n == IF d.some THEN NonZero(d.v) ELSE "1"
                     IN IF n = "" THEN Fail(q, "block-malformed-arguments")
                        ELSE Then(GetBool(q, h.v, "showRoot", "false"),
                                  LAMBDA v : Mod(<<<<"module", "page-tree">>>> \o OptF("root", ArgGet(h.v, "root")) \o StrF("show-root", v.v)
                                                 \o (IF d.some THEN <<<<"depth", n>>>> ELSE <<>>)))
                [] k = "rate" -> Mod(<<<<"module", "rate">>>>))

RunBlock(p, b, name, star, score, inHead) ==
    LET r == b.rule IN
    IF r \in DOMAIN SimpleBlocks THEN PlainContainer(p, b, SimpleBlocks[r], inHead)
    ELSE CASE r = "block-align-center" -> AlignBlock(p, b, "center", inHead)
      [] r = "block-align-justify" -> AlignBlock(p, b, "justify", inHead)
      [] r = "block-align-left" -> AlignBlock(p, b, "left", inHead)
      [] r = "block-align-right" -> AlignBlock(p, b, "right", inHead)
      [] r = "block-anchor" -> AnchorBlock(p, b, star, score, inHead)
      [] r = "block-bibcite" -> Then(HeadValue(p, b, inHead, Trimmed),
            LAMBDA h : Ok1(h.p, N("bibliography-cite", StrF("label", h.v) \o BoolF("brackets", ~score), <<>>)))
      [] r = "block-bibliography" -> BibliographyBlock(p, b, inHead)
      [] r = "block-blockquote" -> ParContainer(p, b, "blockquote", inHead)
      [] r = "block-char" -> CharBlock(p, b, inHead)
      [] r = "block-checkbox" -> CheckboxBlock(p, b, star, inHead)
      [] r = "block-code" -> CodeBlock(p, b, inHead)
      [] r = "block-collapsible" -> CollapsibleBlock(p, b, inHead)
      [] r = "block-date" -> DateBlock(p, b, inHead)
      [] r = "block-div" -> DivBlock(p, b, score, inHead)
      [] r = "block-embed" -> EmbedBlock(p, b, inHead)
      [] r = "block-equation-ref" -> Then(HeadValue(p, b, inHead, Trimmed), LAMBDA h : Ok1(h.p, Leaf("equation-reference", h.v)))
      [] r = "block-footnote" -> FootnoteBlock(p, b, inHead)
      [] r = "block-footnote-block" -> FootnoteList(p, b, inHead)
      [] r = "block-html" -> HtmlBlock(p, b, inHead)
      [] r = "block-ifcategory" -> IfCategoryBlock(p, b, inHead)
      [] r = "block-iftags" -> IfTagsBlock(p, b, inHead)
      [] r = "block-iframe" -> IframeBlock(p, b, inHead)
      [] r = "block-image" -> ImageBlock(p, b, name, inHead)
      [] r = "block-include-elements" -> IncludeElementsBlock(p, b, inHead)
      [] r = "block-include" -> IncludeBlock(p)
      [] r = "block-later" -> Then(HeadNone(p, b, inHead), LAMBDA h : Ok1(h.p, TextN("later.")))
      [] r = "block-lines" -> LinesBlock(p, b, inHead)
      [] r = "block-list-unordered" -> ListBlock(p, b, "bullet", score, inHead)
      [] r = "block-list-ordered" -> ListBlock(p, b, "numbered", score, inHead)
      [] r = "block-list-item" -> ItemBlock(p, b, score, inHead)
      [] r = "block-math" -> MathBlock(p, b, inHead)
      [] r = "block-module" -> ModuleBlock(p, b, inHead)
      [] r = "block-paragraph" -> ParagraphBlock(p, b, inHead)
      [] r = "block-radio" -> RadioBlock(p, b, star, inHead)
      [] r = "block-ruby" -> RubyBlock(p, b, inHead)
      [] r = "block-ruby-text" -> RubyTextBlock(p, b, inHead)
      [] r = "block-ruby-short" -> RubyShortBlock(p, b, inHead)
      [] r = "block-size" -> SizeBlock(p, b, inHead)
      [] r = "block-span" -> SpanBlock(p, b, score, inHead)
      [] r = "block-table" -> TableBlock(p, b, inHead)
      [] r = "block-table-row" -> RowBlock(p, b, inHead)
      [] r = "block-table-cell-regular" -> CellBlock(p, b, FALSE, inHead)
      [] r = "block-table-cell-header" -> CellBlock(p, b, TRUE, inHead)
      [] r = "block-tabview" -> TabViewBlock(p, b, inHead)
      [] r = "block-tab" -> TabBlock(p, b, inHead)
      [] r = "block-target" -> TargetBlock(p, b, inHead)
      [] r = "block-toc" -> TocBlock(p, b, name, inHead)
      [] r = "block-user" -> Then(HeadValue(p, b, inHead, Trimmed),
            LAMBDA h : Ok1(h.p, N("user", StrF("name", h.v) \o BoolF("show-avatar", star), <<>>)))

GetBlockName(p, star) ==
    BlockName(OptSpace(Opt(p, IF star THEN "left-block-star" ELSE "left-block")), "block-missing-name")
BlockRule(p0, star) ==
    LET p == OptSpace(p0) IN
    Then(GetBlockName(p, star), LAMBDA nm :
      LET score == Ends(nm.v, "_")
          name == UnScore(nm.v)
          b == BlockNamed(name)
          q == [nm.p EXCEPT !.rule = b.rule]
      IN IF b.names = {} THEN Fail(nm.p, "no-such-block")
         ELSE IF star /\ ~b.star THEN Fail(q, "block-disallows-star")
         ELSE IF score /\ ~b.score THEN Fail(q, "block-disallows-score")
         ELSE RunBlock(OptSpace(q), b, name, star, score, nm.inHead))

(* -------------------------------------------------------------- symbol rules *)
Emphasis(p, type, open, close) ==
    CollectIn(Adv(p), type, <<>>, Ones({close}), Cond({"paragraph-break"}, {<<open, "whitespace">>, <<"whitespace", close>>}))

AnchorRule(p) ==
    Then(Take(Adv(p), "whitespace", "rule-failed"), LAMBDA t :
      Then(CollectText(t.p, Ones({"right-block"}), SpaceOrBreaks, "rule-failed"), LAMBDA r :
        Ok1(r.p, Leaf("anchor-name", MaybeIsolate(p, r.v)))))
BibciteRule(p0) ==
    LET p == Adv(p0) IN
    IF ~(Is(p, "identifier") /\ EqCI(Cur(p).s, "bibcite")) THEN Fail(p, "rule-failed")
    ELSE LET q == Adv(p) IN
         IF ~Is(q, "whitespace") THEN Fail(q, "rule-failed")
         ELSE Then(CollectText(Adv(q), Ones({"right-parentheses"}), SpaceOrBreaks, "rule-failed"), LAMBDA r :
                Ok1(r.p, N("bibliography-cite", StrF("label", r.v) \o BoolF("brackets", FALSE), <<>>)))
CenterRule(p) ==
    LET q == Adv(p) IN
    IF ~Is(q, "whitespace") THEN Fail(q, "rule-failed")
    ELSE Then(Collect(Adv(q), EndOfLine, Ones({})),
           LAMBDA r : Ok(r.p, <<N("container", <<<<"type", "align">>, <<"align", "center">>>>, r.els)>>, r.errs, FALSE))
ClearFloatRule(p) ==
    OkD(OptBreak(p), <<N("clear-float", StrF("which", From(Kind(p), 13)), <<>>)>>, <<>>)
RuleRule(p) == Ok1(OptBreak(Adv(p)), N("horizontal-rule", <<>>, <<>>))
Hexify(s) == IF AllIn(s, HexDigits) /\ Len(s) \in {3, 6} THEN "#" \o s ELSE s
ColorRule(p) ==
    Then(CollectText(Adv(p), Ones({"pipe"}), Breaks, "rule-failed"), LAMBDA h :
      Then(Collect(h.p, Ones({"color"}), Ones({"paragraph-break"})), LAMBDA r :
        Ok(r.p, <<N("color", StrF("color", Hexify(h.v)), r.els)>>, r.errs, r.safe)))
CommentRule(p) ==
    Then(CollectText(Adv(p), Ones({"right-comment"}), Ones({}), "x"), LAMBDA r : Ok(r.p, <<>>, <<>>, TRUE))
DoubleAngleRule(p) ==
    IF Is(p, "left-double-angle") THEN Ok1(p, TextN(p.c.laquo))
    ELSE IF Cur(p).s = ">>" THEN Ok1(p, TextN(p.c.raquo)) ELSE Fail(p, "rule-failed")

QuoteTree(es) ==       \* entries of one level, to a quotation
    LET st == FoldLeft(LAMBDA s, e :
                  IF e.t = "item" THEN FoldLeft(LAMBDA z, x : PushEl(z, x, e.x.safe), s, e.x.els)
                  ELSE PushEl(PopBreak(s), e.node, FALSE), [fin |-> <<>>, cur |-> <<>>], es)
    IN Container("blockquote", <<>>, EndPar(PopBreak(st)).fin)
RECURSIVE QuoteNode(_)
QuoteNode(es) == QuoteTree(Map(LAMBDA e : IF e.t = "item" THEN e ELSE [t |-> "list", node |-> QuoteNode(e.sub)], es))
RECURSIVE QuoteLoop(_)
QuoteLoop(st) ==
    LET p == st.p IN
    IF ~Is(p, "quote") THEN [st EXCEPT !.ok = TRUE]
    ELSE LET depth == Len(Cur(p).s)
             q == OptSpace(Adv(p))
         IN IF depth > 30 THEN Fail(q, "blockquote-depth-exceeded")
            ELSE LET r == Collect(q, EndOfLine, Ones({})) IN
                 IF ~r.ok THEN r
                 ELSE QuoteLoop([st EXCEPT !.p = r.p, !.errs = @ \o r.errs,
                        !.items = Append(@, [depth |-> depth - 1, ty |-> "", x |-> [els |-> Append(r.els, LineBreakN), safe |-> r.safe]])])
QuoteRule(p) ==
    Then(QuoteLoop([ok |-> TRUE, p |-> p, errs |-> <<>>, items |-> <<>>]), LAMBDA r :
      LET trees == DepthTrees("", r.items)
      IN Ok(r.p, Map(LAMBDA t : QuoteNode(t.es), trees), r.errs, FALSE))

ListItemN(els) == N("item", <<>>, els)
RECURSIVE ListNode(_, _)
ListNode(ty, es) ==
    N("list", <<<<"type", ty>>>>, Map(LAMBDA e : IF e.t = "item" THEN ListItemN(e.x)
                                                  ELSE N("sub-list", <<>>, <<ListNode(e.ty, e.sub)>>), es))
ListKinds == {"bullet-item", "numbered-item"}
RECURSIVE ListLoop(_)
ListLoop(st) ==
    LET p == st.p
        space == Is(p, "whitespace")
        depth == IF space THEN Cur(p).e - Cur(p).b ELSE 0
        q == IF space THEN Adv(p) ELSE p
        Stop(at) == IF st.items = <<>> THEN Fail(at, "rule-failed") ELSE [st EXCEPT !.ok = TRUE]
    IN IF ~space /\ Kind(p) \notin ListKinds THEN Stop(p)
       ELSE IF depth > 20 THEN Fail(q, "list-depth-exceeded")
       ELSE IF Kind(q) \notin ListKinds THEN Stop(q)
       ELSE LET z == Adv(q) IN
            IF ~Is(z, "whitespace") THEN Stop(z)
            ELSE LET r == Collect(Adv(z), EndOfLine, Ones({})) IN
                 IF ~r.ok THEN r
                 ELSE ListLoop([st EXCEPT !.p = r.p, !.errs = @ \o r.errs,
                        !.items = Append(@, [depth |-> depth, ty |-> IF Is(q, "bullet-item") THEN "bullet" ELSE "numbered", x |-> r.els])])
ListRule(p) ==
    Then(ListLoop([ok |-> TRUE, p |-> p, errs |-> <<>>, items |-> <<>>]), LAMBDA r :
      LET trees == DepthTrees("generic", r.items)
      IN Ok(r.p, Map(LAMBDA t : ListNode(t.ty, t.es), trees), r.errs, FALSE))

DefItem(p) ==      \* els: the item; v: whether the list ends here
    IF ~p.sol \/ ~(Is(p, "colon") /\ Next1(p) = "whitespace") THEN Fail(p, "rule-failed")
    ELSE LET p1 == At(p, p.pos + 2) IN
         Then(Collect(p1, Cond({}, {<<"whitespace", "colon">>}), Breaks), LAMBDA k :
           LET p2 == k.p IN
           IF ~(Is(p2, "colon") /\ Next1(p2) = "whitespace") THEN Fail(p2, "rule-failed")
           ELSE Then(Collect(At(p2, p2.pos + 2), EndOfLine, Ones({})), LAMBDA v :
                  [ok |-> TRUE, p |-> v.p, errs |-> k.errs \o v.errs,
                   item |-> N("def", StrF("key", Trim(Slice(p, p1.pos, p2.pos - 1))),
                              <<N("key", <<>>, StripBlank(k.els)), N("value", <<>>, StripBlank(v.els))>>),
                   end |-> KindAt(p, v.last) # "line-break"]))
RECURSIVE DefLoop(_)
DefLoop(st) ==
    IF st.end THEN st
    ELSE LET r == DefItem(st.p) IN
         IF ~r.ok THEN st
         ELSE DefLoop([p |-> r.p, errs |-> st.errs \o r.errs, items |-> Append(st.items, r.item), end |-> r.end])
DefRule(p) ==
    Then(DefItem(p), LAMBDA f :
      LET r == DefLoop([p |-> f.p, errs |-> f.errs, items |-> <<f.item>>, end |-> f.end])
      IN Ok(r.p, <<N("definition-list", <<>>, r.items)>>, r.errs, FALSE))
DefSkip(p) == IF Next1(p) = "colon" /\ Next2(p) = "whitespace" THEN Ok(p, <<>>, <<>>, TRUE) ELSE Fail(p, "rule-failed")

HeaderLine(p) ==
    IF ~Is(p, "heading") THEN Fail(p, "rule-failed")
    ELSE LET q == Adv(p)
             toc == ~Ends(Cur(p).s, "*")
             level == Len(Cur(p).s) - (IF toc THEN 0 ELSE 1)
         IN IF ~Is(q, "whitespace") THEN Fail(q, "rule-failed")
            ELSE Then(Collect(Adv(q), EndOfLine, Ones({})), LAMBDA r :
                   Ok(IF toc THEN [r.p EXCEPT !.toc = SubSeq(@, 1, Len(p.toc)) \o <<[level |-> level - 1, els |-> r.els]>> \o SubSeq(@, Len(p.toc) + 1, Len(@))] ELSE r.p,
                      <<N("container", <<<<"type", "header">>, <<"level", ToString(level)>>>> \o BoolF("has-toc", toc), r.els)>>,
                      r.errs, FALSE))
RECURSIVE HeaderLoop(_)
HeaderLoop(st) == LET r == HeaderLine(st.p) IN
    IF ~r.ok THEN st ELSE HeaderLoop([st EXCEPT !.p = r.p, !.els = @ \o r.els, !.errs = @ \o r.errs])
HeaderRule(p) == Then(HeaderLine(p), LAMBDA f : HeaderLoop([f EXCEPT !.safe = FALSE]))

ColumnKinds == {"table-column", "table-column-left", "table-column-right", "table-column-center", "table-column-title"}
BreakSkips == {"quote", "bullet-item", "numbered-item", "heading", "equals", "triple-dash", "clear-float-left",
               "clear-float-right", "clear-float-both"} \cup ColumnKinds
LineBreakRule(p) ==
    LET q == OptSpace(Adv(p)) IN
    IF Kind(q) \in BreakSkips THEN Ok(p, <<>>, <<>>, TRUE) ELSE Ok1(p, LineBreakN)
UnderscoreRule(p) ==
    IF Is(p, "whitespace") /\ Next1(p) = "underscore"
    THEN LET q == Adv(p) IN
         IF Next1(q) \in {"line-break", "paragraph-break"} THEN Ok1(At(q, q.pos + 2), LineBreakN) ELSE Fail(q, "rule-failed")
    ELSE IF Is(p, "underscore") /\ p.sol /\ Next1(p) \in {"line-break", "paragraph-break"} THEN Ok1(At(p, p.pos + 2), LineBreakN)
    ELSE Fail(p, "rule-failed")
BlockSkipRule(p) ==
    LET q == Adv(p) IN
    IF Kind(q) \in {"left-block", "left-block-star"}
       /\ LET nm == GetBlockName(q, FALSE) IN nm.ok /\ BlockNamed(nm.v).nl
    THEN Ok(q, <<>>, <<>>, TRUE) ELSE Fail(q, "rule-failed")

LinkAnchorRule(p) ==
    Then(CollectText(Adv(p), Ones({"whitespace"}), Ones({"right-bracket", "paragraph-break", "line-break"}), "rule-failed"), LAMBDA u :
      Then(CollectText(u.p, Ones({"right-bracket"}), Breaks, "rule-failed"), LAMBDA l :
        Ok1(l.p, Link("anchor", UrlTarget(IF u.v = "" THEN "javascript:;" ELSE "#" \o Normalize(p.c.uni, u.v)), None, "text", Trim(l.v), FALSE))))
LinkSingleRule(p, tab) ==
    Then(CollectText(Adv(p), Ones({"whitespace"}), Ones({"right-bracket", "paragraph-break", "line-break"}), "rule-failed"), LAMBDA u :
      IF ~(Starts(u.v, "/") \/ IsUrl(u.v)) THEN Fail(u.p, "invalid-url")
      ELSE Then(CollectText(u.p, Ones({"right-bracket"}), Breaks, "rule-failed"), LAMBDA l :
             Ok1(l.p, Link("direct", UrlTarget(u.v), LinkExtra(u.v), "text", Trim(l.v), tab))))
RECURSIVE StripCategory(_)
StripCategory(s) ==
    LET k == FindC(s, ":") IN
    IF k = 0 THEN None
    ELSE IF k > 1 THEN Some(TrimStart(From(s, k + 1)))
    ELSE LET m == FindFrom(s, ":", 2) IN
         IF m = 0 THEN None
         ELSE LET rest == TrimStart(From(s, m + 1)) IN Some(OrElse(StripCategory(rest), rest))
TripleTarget(p, url) ==      \* [some, v: target, type]
    IF Starts(url, "!")
    THEN LET u == InterwikiBuild(p.c.interwiki, From(url, 2)) IN
         [some |-> u.some, v |-> UrlTarget(u.v), type |-> "interwiki"]
    ELSE LET t == LinkTarget(url) IN [some |-> TRUE, v |-> t, type |-> IF t.kind = "page" THEN "page" ELSE "direct"]
LinkTripleRule(p, tab) ==
    Then(CollectText(Adv(p), Ones({"pipe", "right-link"}), Breaks, "rule-failed"), LAMBDA u :
      LET url == Trim(u.v)
          t == TripleTarget(p, url)
      IN IF url = "" THEN Fail(u.p, "rule-failed")
         ELSE IF u.last = "right-link"
         THEN IF ~t.some THEN Fail(u.p, "rule-failed")
              ELSE LET l == StripCategory(url) IN
                   Ok1(u.p, Link(t.type, t.v, LinkExtra(url), IF l.some THEN "url" ELSE "bare-url", l.v, tab))
         ELSE Then(CollectText(u.p, Ones({"right-link"}), Breaks, "rule-failed"), LAMBDA l :
                IF ~t.some THEN Fail(l.p, "rule-failed")
                ELSE Ok1(l.p, Link(t.type, t.v, LinkExtra(url), IF Trim(l.v) = "" THEN "page" ELSE "text", Trim(l.v), tab))))

MathRule(p) ==
    Then(CollectText(Adv(p), Ones({"right-math"}), Breaks, "rule-failed"), LAMBDA r : Ok1(r.p, N("math-inline", StrF("latex-source", Trim(r.v)), <<>>)))

RawScan(p, close) ==
    LET q == Adv(p) IN
    Then(CollectText(q, Ones({close}), Breaks, "rule-failed"), LAMBDA r : Ok1(r.p, Leaf("raw", r.v)))
RawRule(p) ==
    IF Is(p, "left-raw") THEN RawScan(p, "right-raw")
    ELSE IF p.pos + 2 > p.c.n THEN Fail(p, "end-of-input")
    ELSE LET a == Next1(p)
             b == Next2(p)
             Raw(k, s) == Ok1(At(p, p.pos + k), Leaf("raw", s))
         IN CASE a = "raw" /\ b = "raw" -> Raw(3, "@@")
              [] a = "raw" /\ b = "other" /\ p.c.T[p.pos + 2].s = "@" -> Raw(3, "@")
              [] a = "raw" -> Raw(2, "")
              [] a \in {"line-break", "paragraph-break"} /\ b = "raw" -> Fail(p, "rule-failed")
              [] b = "raw" -> Raw(3, p.c.T[p.pos + 1].s)
              [] OTHER -> RawScan(p, "raw")

(* tables: cells until the line ends; a line that does not end like a row    *)
(* ends the table before it                                                  *)
RECURSIVE CellLoop(_)
CellLoop(st) ==      \* st: p, els, errs; result has how: "cell", "row", "table", "stop"
    LET p == st.p
        nx == Next1(p)
    IN IF Kind(p) \in ColumnKinds /\ nx # "none"
       THEN CASE nx \in {"paragraph-break", "input-end"} -> [st EXCEPT !.how = "table", !.p = Adv(p)]
              [] nx = "line-break" -> [st EXCEPT !.how = "row", !.p = At(p, p.pos + 2)]
              [] OTHER -> [st EXCEPT !.how = "cell"]
       ELSE IF Is(p, "whitespace") /\ (st.els = <<>> \/ nx \in ColumnKinds) THEN CellLoop([st EXCEPT !.p = Adv(p)])
       ELSE IF Kind(p) \in {"line-break", "paragraph-break", "input-end"} THEN [st EXCEPT !.how = "stop"]
       ELSE LET r == Consume(p) IN
            IF ~r.ok THEN r ELSE CellLoop([st EXCEPT !.p = r.p, !.els = @ \o r.els, !.errs = @ \o r.errs])
CellStart(p) ==      \* [span, align, header, p]; span 0 when there is none
    LET R[i \in p.pos..p.c.n] == IF KindAt(p, i) = "table-column" THEN R[i + 1] ELSE i
        k == R[p.pos]
        last == KindAt(p, k)
        more == last \in (ColumnKinds \ {"table-column"})
        span == k - p.pos + (IF more THEN 1 ELSE 0)
    IN [span |-> span, p |-> IF span = 0 THEN p ELSE At(p, p.pos + span), header |-> last = "table-column-title",
        align |-> CASE last = "table-column-left" -> Some("left") [] last = "table-column-right" -> Some("right")
                    [] last = "table-column-center" -> Some("center") [] OTHER -> None]
RECURSIVE RowLoop(_)
RowLoop(st) ==       \* st: p, cells, errs; result has how: "row", "table", "stop"
    LET s == CellStart(st.p) IN
    IF s.span = 0 THEN [st EXCEPT !.how = "stop"]
    ELSE LET r == CellLoop([ok |-> TRUE, p |-> s.p, els |-> <<>>, errs |-> <<>>, how |-> ""]) IN
         IF ~r.ok THEN r
         ELSE LET cell == N("cell", BoolF("header", s.header) \o StrF("column-span", ToString(s.span)) \o OptF("align", s.align), r.els)
                  next == [st EXCEPT !.p = r.p, !.errs = @ \o r.errs, !.cells = Append(@, cell)]
              IN CASE r.how = "cell" -> RowLoop(next)
                   [] r.how = "stop" -> [st EXCEPT !.how = "stop", !.p = r.p]
                   [] OTHER -> [next EXCEPT !.how = r.how]
RECURSIVE TableLoop(_)
TableLoop(st) ==
    LET r == RowLoop([ok |-> TRUE, p |-> st.p, cells |-> <<>>, errs |-> <<>>, how |-> ""]) IN
    IF ~r.ok THEN r
    ELSE IF r.how = "stop" THEN (IF st.rows = <<>> THEN Fail(r.p, "rule-failed") ELSE st)
    ELSE LET next == [st EXCEPT !.p = r.p, !.errs = @ \o r.errs, !.rows = Append(@, N("row", <<>>, r.cells))]
         IN IF r.how = "table" THEN next ELSE TableLoop(next)
TableRule(p) ==
    Then(TableLoop([ok |-> TRUE, p |-> p, errs |-> <<>>, rows |-> <<>>]), LAMBDA r :
      Ok(r.p, <<N("table", <<<<"@class", "wj-table">>>>, r.rows)>>, r.errs, FALSE))

RunRule(p, rule) ==
    CASE rule = "text" -> Ok1(p, TextN(Cur(p).s))
      [] rule = "line-break" -> LineBreakRule(p)
      [] rule = "line-break-paragraph" -> LineBreakRule(p)
      [] rule = "block-skip" -> BlockSkipRule(p)
      [] rule = "definition-list-skip-newline" -> DefSkip(p)
      [] rule = "underscore-line-break" -> UnderscoreRule(p)
      [] rule = "list" -> ListRule(p)
      [] rule = "block" -> BlockRule(p, FALSE)
      [] rule = "block-star" -> BlockRule(p, TRUE)
      [] rule = "anchor" -> AnchorRule(p)
      [] rule = "bibcite" -> BibciteRule(p)
      [] rule = "bold" -> Emphasis(p, "bold", "bold", "bold")
      [] rule = "italics" -> Emphasis(p, "italics", "italics", "italics")
      [] rule = "underline" -> Emphasis(p, "underline", "underline", "underline")
      [] rule = "superscript" -> Emphasis(p, "superscript", "superscript", "superscript")
      [] rule = "subscript" -> Emphasis(p, "subscript", "subscript", "subscript")
      [] rule = "strikethrough-dash" -> Emphasis(p, "strikethrough", "double-dash", "double-dash")
      [] rule = "strikethrough-tilde" -> Emphasis(p, "strikethrough", "double-tilde", "double-tilde")
      [] rule = "monospace" -> Emphasis(p, "monospace", "left-monospace", "right-monospace")
      [] rule = "dash" -> Ok1(p, TextN(p.c.dash))
      [] rule = "horizontal-rule" -> RuleRule(p)
      [] rule = "clear-float" -> ClearFloatRule(p)
      [] rule = "double-angle" -> DoubleAngleRule(p)
      [] rule = "center" -> CenterRule(p)
      [] rule = "color" -> ColorRule(p)
      [] rule = "comment" -> CommentRule(p)
      [] rule = "definition-list" -> DefRule(p)
      [] rule = "blockquote" -> QuoteRule(p)
      [] rule = "header" -> HeaderRule(p)
      [] rule = "email" -> Ok1(p, Leaf("email", Cur(p).s))
      [] rule = "url" -> Ok1(p, Link("direct", UrlTarget(Cur(p).s), None, "bare-url", "", FALSE))
      [] rule = "variable" -> Ok1(p, Leaf("variable", Sub(Cur(p).s, 3, Len(Cur(p).s) - 1)))
      [] rule = "link-anchor" -> LinkAnchorRule(p)
      [] rule = "link-single" -> LinkSingleRule(p, FALSE)
      [] rule = "link-single-new-tab" -> LinkSingleRule(p, TRUE)
      [] rule = "link-triple" -> LinkTripleRule(p, FALSE)
      [] rule = "link-triple-new-tab" -> LinkTripleRule(p, TRUE)
      [] rule = "math" -> MathRule(p)
      [] rule = "raw" -> RawRule(p)
      [] rule = "table" -> TableRule(p)
      [] rule = "null" -> Ok(p, <<>>, <<>>, TRUE)

(* ------------------------------------------------------------------ attempts *)
PartialErr == [x \in {"p:list-item", "p:table-row", "p:table-cell", "p:tab", "p:ruby-text"} |->
    CASE x = "p:list-item" -> <<"list-item", "list-item-outside-list">>
      [] x = "p:table-row" -> <<"table-row", "table-row-outside-table">>
      [] x = "p:table-cell" -> <<"table-cell", "table-cell-outside-table">>
      [] x = "p:tab" -> <<"tab", "tab-outside-tab-view">>
      [] x = "p:ruby-text" -> <<"ruby", "ruby-text-outside-ruby">>]
OverBudget == TLCGet(7) > Budget

TryRule(p, rule) ==
    IF rule \in StartOfLineRules /\ ~p.sol THEN Fail(p, "not-start-of-line")
    ELSE IF ~(TLCSet(7, TLCGet(7) + 1)) \/ OverBudget THEN Fail(p, "over-budget")
    ELSE LET r == RunRule([p EXCEPT !.rule = rule, !.pacc = p.acc, !.acc = "none"], rule) IN
         IF ~r.ok THEN r
         ELSE LET bad == {i \in 1..Len(r.els) : r.els[i].n \in DOMAIN PartialErr /\ PartialErr[r.els[i].n][1] # p.acc} IN
              IF bad # {} THEN Fail(p, PartialErr[r.els[CHOOSE i \in bad : \A j \in bad : i <= j].n][2])
              ELSE [r EXCEPT !.p.rule = p.rule, !.p.acc = p.acc, !.p.pacc = p.pacc, !.p.depth = p.depth]

RECURSIVE RuleLoop(_, _, _, _)
RuleLoop(p, rules, i, errs) ==
    IF i > Len(rules)
    THEN IF p.pos = p.c.n THEN Fail(p, "end-of-input")
         ELSE IF errs # <<>> /\ Last1(errs).kind = "recursion-depth-exceeded" THEN [ok |-> FALSE, err |-> Last1(errs)]
         ELSE Ok(Adv(p), <<TextN(Cur(p).s)>>,
                 Append(errs, [kind |-> "no-rules-match", rule |-> "fallback", token |-> Kind(p), b |-> Cur(p).b, e |-> Cur(p).e]), TRUE)
    ELSE LET r == TryRule(p, rules[i]) IN
         IF r.ok THEN IF r.p.pos # p.pos THEN r
                      ELSE IF p.pos = p.c.n THEN Fail(p, "end-of-input") ELSE [r EXCEPT !.p = Adv(r.p)]
         ELSE RuleLoop(p, rules, i + 1, Append(errs, r.err))
Consume(p0) ==
    LET p == [p0 EXCEPT !.depth = @ + 1] IN
    IF p.depth > MaxDepth THEN Fail(p, "recursion-depth-exceeded")
    ELSE LET r == RuleLoop(p, RulesFor(Kind(p)), 1, <<>>) IN
         IF r.ok THEN [r EXCEPT !.p.depth = p0.depth] ELSE r

(* ------------------------------------------------------------------- a page *)
Start(c) ==
    [c |-> c, pos |-> 1, rule |-> "page", depth |-> 0, acc |-> "none", pacc |-> "none", infn |-> FALSE, hasfb |-> FALSE,
     sol |-> TRUE, html |-> <<>>, code |-> <<>>, toc |-> <<>>, fns |-> <<>>, bibs |-> <<>>]
(* els, errs, html, code, toc (entries with level and elements), fns, bibs *)
ParsePage(c) ==
    IF ~TLCSet(7, 0) THEN FALSE
    ELSE LET r == Paragraphs(Start(c), NoBlock) IN
         IF r.ok
         THEN [els |-> IF r.p.hasfb THEN r.els ELSE Append(r.els, N("footnote-block", <<<<"hide", "false">>>>, <<>>)),
               errs |-> r.errs, html |-> r.p.html, code |-> r.p.code, toc |-> r.p.toc, fns |-> r.p.fns, bibs |-> r.p.bibs, fatal |-> FALSE]
         ELSE [els |-> <<TextN(Slice(Start(c), 1, c.n))>>, errs |-> <<r.err>>, html |-> <<>>, code |-> <<>>, toc |-> <<>>,
               fns |-> <<>>, bibs |-> <<>>, fatal |-> TRUE]
=============================================================================
