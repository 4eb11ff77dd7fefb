----------------------------- MODULE RenderText -----------------------------
(* The text of a tree.  A state is [out, inv: whether characters are blanked *)
(* out, vars: the variables of the pages included, innermost first].  The    *)
(* context c has site and shows: the text of every date.                     *)
EXTENDS Tree

LOCAL PutS(s, t) == [s EXCEPT !.out = @ \o (IF s.inv THEN RepeatS(" ", CharCount(t)) ELSE t)]
LOCAL Line(s) == [s EXCEPT !.out = @ \o "\n"]
LOCAL FreshLine(s) == IF Ends(s.out, "\n") THEN s ELSE Line(s)
LOCAL Newlines(s, n) == FoldLeft(LAMBDA a, i : Line(a), s, [i \in 1..n |-> i])

PageTitle(c, site, page) == "TODO: actual title (" \o OrElse(site, c.site) \o " " \o page \o ")"
LinkLabel(c, e) ==
    IF Has(e, "label-text") THEN Get(e, "label-text")
    ELSE IF Has(e, "label-url") THEN Get(e, "label-url")
    ELSE IF Has(e, "label-bare-url") THEN (IF Has(e, "link-url") THEN Get(e, "link-url") ELSE Get(e, "link-page"))
    ELSE IF Has(e, "link-url") THEN Get(e, "link-url")
    ELSE PageTitle(c, GetO(e, "link-site"), Get(e, "link-page"))
DateText(c, e) == LET v == Get(e, "value") IN IF v \in DOMAIN c.shows THEN c.shows[v] ELSE "?"

VarsOf(e) == Map(LAMBDA kv : <<From(kv[1], 2), kv[2]>>, SelectSeq(e.a, LAMBDA kv : Starts(kv[1], "$")))
(* The value the innermost page included gives it *)
Var(s, name) ==
    LET K == {i \in 1..Len(s.vars) : \E j \in 1..Len(s.vars[i]) : s.vars[i][j][1] = name}
    IN IF K = {} THEN "{$" \o name \o "}"
       ELSE LET v == s.vars[CHOOSE i \in K : \A j \in K : i <= j] IN v[CHOOSE j \in 1..Len(v) : v[j][1] = name][2]

RECURSIVE Els(_, _, _)
RECURSIVE El(_, _, _)
Els(c, s, els) == FoldLeft(LAMBDA a, e : El(c, a, e), s, els)
El(c, s, e) ==
    CASE e.n \in {"text", "raw", "email"} -> PutS(s, Get(e, "text"))
      [] e.n = "variable" -> PutS(s, Var(s, Get(e, "text")))
      [] e.n = "container" ->
           LET t == Get(e, "type") IN
           CASE t = "hidden" -> s
             [] t = "invisible" -> [Els(c, [s EXCEPT !.inv = TRUE], e.c) EXCEPT !.inv = s.inv]
             [] t \in {"div", "paragraph", "blockquote", "header"} -> Line(Els(c, Line(s), e.c))
             [] t = "ruby-text" -> PutS(Els(c, PutS(s, "("), e.c), ")")
             [] OTHER -> Els(c, s, e.c)
      [] e.n = "table" -> Line(FoldLeft(LAMBDA a, row : Line(FoldLeft(LAMBDA b, cell : Els(c, b, cell.c), a, row.c)), FreshLine(s), e.c))
      [] e.n = "tab-view" -> FoldLeft(LAMBDA a, tab : Line(Els(c, Line(PutS(a, Get(tab, "label"))), tab.c)), s, e.c)
      [] e.n \in {"anchor", "collapsible", "color"} -> Els(c, s, e.c)
      [] e.n = "include" -> [Els(c, [s EXCEPT !.vars = <<VarsOf(e)>> \o @], e.c) EXCEPT !.vars = s.vars]
      [] e.n = "link" -> PutS(s, LinkLabel(c, e))
      [] e.n = "list" ->
           FoldLeft(LAMBDA a, i : IF i.n = "sub-list" THEN El(c, a, i.c[1])
                                  ELSE IF i.c = <<>> THEN a ELSE Line(Els(c, a, i.c)), FreshLine(s), e.c)
      [] e.n = "definition-list" ->
           Line(FoldLeft(LAMBDA a, d : Line(Els(c, PutS(Els(c, a, d.c[1].c), " "), d.c[2].c)), s, e.c))
      [] e.n = "user" -> PutS(s, Get(e, "name"))
      [] e.n = "date" -> PutS(s, DateText(c, e))
      [] e.n = "code" -> Line(PutS(Line(s), Get(e, "contents")))
      [] e.n = "equation-reference" -> PutS(s, "[" \o Get(e, "text") \o "]")
      [] e.n = "line-break" -> Line(s)
      [] e.n = "line-breaks" -> Newlines(s, NumOf(Get(e, "n")))
      [] OTHER -> s

TextOf(c, els) == TrimIn(Els(c, [out |-> "", inv |-> FALSE, vars |-> <<>>], els).out, {"\n"})
=============================================================================
