-------------------------------- MODULE Tree --------------------------------
(* The syntax tree: a node is [n: kind, a: fields, c: children]; fields are  *)
(* a sequence of <<name, value>> pairs of strings, absent ones left out;     *)
(* attributes are fields whose name begins with "@".                         *)
EXTENDS Text

N(n, a, c) == [n |-> n, a |-> a, c |-> c]
TextN(s) == N("text", <<<<"text", s>>>>, <<>>)
Leaf(n, s) == N(n, <<<<"text", s>>>>, <<>>)
LineBreakN == N("line-break", <<>>, <<>>)
Attrs(as) == Map(LAMBDA kv : <<"@" \o kv[1], kv[2]>>, as)
Container(type, as, c) == N("container", <<<<"type", type>>>> \o as, c)
Paragraph(c) == Container("paragraph", <<>>, c)
OptF(name, o) == IF o.some THEN <<<<name, o.v>>>> ELSE <<>>
BoolF(name, b) == <<<<name, IF b THEN "true" ELSE "false">>>>
StrF(name, s) == <<<<name, s>>>>

Has(node, f) == \E i \in 1..Len(node.a) : node.a[i][1] = f
Get(node, f) == IF Has(node, f) THEN node.a[CHOOSE i \in 1..Len(node.a) : node.a[i][1] = f][2] ELSE ""
GetO(node, f) == IF Has(node, f) THEN Some(Get(node, f)) ELSE None
AttrsOf(node) == Map(LAMBDA kv : <<From(kv[1], 2), kv[2]>>, SelectSeq(node.a, LAMBDA kv : Starts(kv[1], "@")))
IsContainer(node, type) == node.n = "container" /\ Get(node, "type") = type

UnsafeKinds == {"module", "table", "tab-view", "list", "definition-list", "collapsible", "table-of-contents",
                "footnote-block", "bibliography-block", "code", "math", "embed", "html", "iframe", "style",
                "clear-float", "horizontal-rule"}
SafeType(t) == t \notin {"div", "blockquote", "paragraph", "align", "header"}
SafeNode(e) == IF e.n = "container" THEN SafeType(Get(e, "type"))
               ELSE IF e.n = "include" THEN Get(e, "paragraph-safe") = "true" ELSE e.n \notin UnsafeKinds
SafeEls(els) == \A i \in 1..Len(els) : SafeNode(els[i])

IsBlank(e) == e.n = "line-break" \/ (e.n = "text" /\ AllSpace(Get(e, "text")))
IsBreak(e) == e.n \in {"line-break", "line-breaks"}
StripBy(els, P(_)) ==
    LET K == {i \in 1..Len(els) : ~P(els[i])}
    IN IF K = {} THEN <<>>
       ELSE SubSeq(els, CHOOSE i \in K : \A j \in K : i <= j, CHOOSE i \in K : \A j \in K : j <= i)
StripBlank(els) == StripBy(els, IsBlank)
StripBreaks(els) == StripBy(els, IsBreak)

TargetF(t) == IF t.kind = "url" THEN <<<<"link-url", t.url>>>>
              ELSE OptF("link-site", t.site) \o <<<<"link-page", t.page>>>>
Link(type, target, extra, lk, label, tab) ==
    N("link", <<<<"type", type>>>> \o TargetF(target) \o OptF("extra", extra) \o <<<<"label-" \o lk, label>>>>
              \o (IF tab THEN <<<<"target", "new-tab">>>> ELSE <<>>), <<>>)
=============================================================================
