------------------------------ MODULE Include ------------------------------
(* Including: the directives of a text, what the includer is asked for, and  *)
(* the text with the answers in their places.                                *)
EXTENDS Text

LOCAL Blank == {" ", "\n", "\t"}
LOCAL NameStop == Blank \cup {"[", "|", "]"}
LOCAL IdC == Alnum \cup {"-", "_"}
(* the first position from i on whose character is not in (is in) S *)
RECURSIVE Over(_, _, _)
Over(s, i, S) == IF i <= Len(s) /\ C(s, i) \in S THEN Over(s, i + 1, S) ELSE i
RECURSIVE Upto(_, _, _)
Upto(s, i, S) == IF i <= Len(s) /\ C(s, i) \notin S THEN Upto(s, i + 1, S) ELSE i
At2(s, i, p) == Sub(s, i, MinI(i + Len(p) - 1, Len(s))) = p

(* A directive ends with brackets at the end of a line *)
EndAt(s, i) == At2(s, i, "]]") /\ (i + 2 > Len(s) \/ C(s, i + 2) \in {"\n", "\r"})
RECURSIVE ValueEnd(_, _)
ValueEnd(s, i) == IF i > Len(s) \/ C(s, i) = "|" \/ EndAt(s, i) THEN i ELSE ValueEnd(s, i + 1)

No == [ok |-> FALSE, e |-> 0, page |-> "", args |-> <<>>]
(* arguments from i on: name = value, separated by bars *)
RECURSIVE Args(_, _, _)
Args(s, i, acc) ==
    LET k == Over(s, i, IdC)
        eq == Over(s, k, Blank)
        v == Over(s, eq + 1, Blank)
        ve == ValueEnd(s, v)
        isArg == k > i /\ eq <= Len(s) /\ C(s, eq) = "=" /\ ve > v
        next == Append(acc, <<Sub(s, i, k - 1), Sub(s, v, ve - 1)>>)
        j == Over(s, i, Blank)
    IN IF ~isArg THEN IF EndAt(s, j) THEN [ok |-> TRUE, e |-> j + 2, args |-> acc] ELSE [ok |-> FALSE, e |-> 0, args |-> <<>>]
       ELSE IF ve > Len(s) THEN [ok |-> FALSE, e |-> 0, args |-> <<>>]
       ELSE IF C(s, ve) = "|" THEN Args(s, Over(s, ve + 1, Blank), next)
       ELSE [ok |-> TRUE, e |-> ve + 2, args |-> next]

(* The directive that begins at position i; e is the position behind it *)
Directive(s, i) ==
    LET a == Over(s, i + 2, Blank)
        b == a + 7
        p == Over(s, b, Blank)
        (* the name of the page, possibly of another site *)
        site == IF p <= Len(s) /\ C(s, p) = ":" THEN Upto(s, p + 1, NameStop \cup {":"}) ELSE p
        offsite == site > p + 1 /\ site <= Len(s) /\ C(s, site) = ":"
        q == IF offsite THEN Upto(s, site + 1, NameStop) ELSE Upto(s, p, NameStop)
        named == q > (IF offsite THEN site + 1 ELSE p)
        r == PageRefParse(Sub(s, p, q - 1))
        j == Over(s, q, Blank)
        k == IF j <= Len(s) /\ C(s, j) = "|" THEN Over(s, j + 1, Blank) ELSE j
        as == Args(s, k, <<>>)
    IN IF ~At2(s, i, "[[") \/ ~EqCI(Sub(s, a, MinI(a + 6, Len(s))), "include") \/ p = b \/ ~named THEN No
       ELSE IF ~r.ok THEN No
       ELSE IF ~as.ok THEN No
       ELSE [ok |-> TRUE, e |-> as.e, page |-> r, args |-> as.args]

(* of arguments with one name the first counts, unless it refers to itself *)
Vars(args) ==
    FoldLeft(LAMBDA acc, kv : IF (\E i \in 1..Len(acc) : acc[i][1] = kv[1]) \/ Trim(kv[2]) = "{$" \o kv[1] \o "}" THEN acc ELSE Append(acc, kv), <<>>, args)

(* All directives, in order: [b, e, page, vars].  They begin lines, and one  *)
(* within another is part of that one's text.                                *)
Directives(s) ==
    FoldLeft(LAMBDA acc, i :
               IF ~(At2(s, i, "[[") /\ (i = 1 \/ C(s, i - 1) = "\n")) \/ (acc # <<>> /\ i < Last1(acc).e) THEN acc
               ELSE LET d == Directive(s, i) IN
                    IF d.ok THEN Append(acc, [b |-> i, e |-> d.e, page |-> d.page, vars |-> Vars(d.args)]) ELSE acc,
             <<>>, Idx(s))

(* Variables in the page are replaced by what the directive gives for them *)
Replaced(t, vars) ==
    FoldLeft(LAMBDA a, i :
               IF i < a[2] THEN a
               ELSE LET k == IF At2(t, i, "{$") THEN Over(t, i + 2, IdC) ELSE 0
                        M == SelectSeq(vars, LAMBDA kv : k > 0 /\ kv[1] = Sub(t, i + 2, k - 1))
                    IN IF k > i + 2 /\ k <= Len(t) /\ C(t, k) = "}"
                       THEN <<a[1] \o (IF M = <<>> THEN Sub(t, i, k) ELSE M[1][2]), k + 1>>
                       ELSE <<a[1] \o C(t, i), i + 1>>, <<"", 1>>, Idx(t))[1]

(* The includer answers a list of [page, content (an option)]. *)
Asked(ds) == Map(LAMBDA d : [page |-> [site |-> d.page.site, page |-> d.page.page],
                             vars |-> SortSeq(d.vars, LAMBDA a, b : LessS(a[1], b[1]))], ds)
Ref(p) == [site |-> p.site, page |-> p.page]
Matches(ds, answer) == Len(answer) = Len(ds) /\ \A i \in 1..Len(ds) : answer[i].page = Ref(ds[i].page)
(* the text spliced; missing: what is put for a page that does not exist *)
Spliced(s, ds, answer, Missing(_)) ==
    LET piece(i) == IF answer[i].content.some THEN Replaced(answer[i].content.v, ds[i].vars) ELSE Missing(ds[i].page)
        r == FoldLeft(LAMBDA a, i : <<a[1] \o Sub(s, a[2], ds[i].b - 1) \o piece(i), ds[i].e>>, <<"", 1>>, Idx(ds))
    IN r[1] \o From(s, r[2])
(* what lies between the directives *)
Between(s, ds) == LET r == FoldLeft(LAMBDA a, i : <<Append(a[1], Sub(s, a[2], ds[i].b - 1)), ds[i].e>>, <<<<>>, 1>>, Idx(ds))
                  IN Append(r[1], From(s, r[2]))

(* The includers of the library: one puts nothing for every page, the other  *)
(* writes down what it was asked for, with values as literals.               *)
LOCAL LitC(c) == CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\r" -> "\\r" [] c = "\t" -> "\\t" [] OTHER -> c
LOCAL Literal(s) == "\"" \o FoldLeft(LAMBDA a, i : a \o LitC(C(s, i)), "", Idx(s)) \o "\""
Written(d) ==
    LET vs == SortSeq(d.vars, LAMBDA a, b : LessS(a[1], b[1]))
        one(kv) == Literal(kv[1]) \o " => " \o Literal(kv[2])
    IN "<INCLUDED-PAGE " \o PageRefShow(d.page) \o " {"
       \o FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ", ") \o one(vs[i]), "", Idx(vs)) \o "}>"

(* The includers the implementation is run with: these, and some which know  *)
(* some pages and may answer wrongly.                                        *)
ContentOf(pages, ref) == LET k == PageRefShow(ref) IN IF k \in DOMAIN pages THEN pages[k] ELSE None
Wrong(a) == [a EXCEPT !.page = [site |-> None, page |-> "wrong-ref"]]
AnswerOf(fault, ds, pages) ==
    LET right == Map(LAMBDA d : [page |-> Ref(d.page), content |-> ContentOf(pages, d.page)], ds)
        n == Len(right)
    IN CASE fault = "drop-last" -> IF n = 0 THEN right ELSE Front1(right)
         [] fault = "extra" -> Append(right, [page |-> [site |-> None, page |-> "extra"], content |-> None])
         [] fault = "swap" -> Reverse(right)
         [] fault = "wrong-ref" -> IF n = 0 THEN right ELSE [right EXCEPT ![1] = Wrong(@)]
         [] fault = "other-site" -> [i \in 1..n |-> [right[i] EXCEPT !.page.site = Some("other")]]
         [] fault = "no-site" -> [i \in 1..n |-> [right[i] EXCEPT !.page.site = None]]
         [] fault = "longer" -> IF n = 0 THEN right ELSE [right EXCEPT ![n].page.page = @ \o "x"]
         [] fault = "wrong-last" -> IF n = 0 THEN right ELSE [right EXCEPT ![n] = Wrong(@)]
         [] fault = "null" -> [i \in 1..n |-> [right[i] EXCEPT !.content = Some("")]]
         (* the first of several is missing *)
         [] fault = "debug" -> [i \in 1..n |-> [right[i] EXCEPT !.content = IF i = 1 /\ n > 1 THEN None ELSE Some(Written(ds[i]))]]
         [] OTHER -> right
Missing(fault, ref) == (IF fault = "debug" THEN "<MISSING-PAGE " ELSE "<MISSING ") \o PageRefShow(ref) \o ">"

(* [error, output, asked, pages] *)
Included(s, pagesyn, fault, pages) ==
    LET ds == Directives(s)
        answer == AnswerOf(fault, ds, pages)
        bad(e) == [error |-> e, output |-> "", asked |-> Asked(ds), pages |-> <<>>]
    IN IF ~pagesyn THEN [error |-> "", output |-> s, asked |-> <<>>, pages |-> <<>>]
       ELSE IF fault = "fetch-error" THEN bad("fetch-error")
       ELSE IF ~Matches(ds, answer) THEN bad("invalid-return")
       ELSE IF fault = "missing-error" /\ \E i \in 1..Len(answer) : ~answer[i].content.some THEN bad("missing-error")
       ELSE [error |-> "", output |-> Spliced(s, ds, answer, LAMBDA ref : Missing(fault, ref)), asked |-> Asked(ds), pages |-> Map(LAMBDA d : Ref(d.page), ds)]
=============================================================================
