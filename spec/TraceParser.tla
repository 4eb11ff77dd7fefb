---------------------------- MODULE TraceParser ----------------------------
(* Each line of the file TRACES is a recorded run: [id, c: the context of    *)
(* the parse, including the tokens, and what the implementation returned:    *)
(* els, errs, html, code, fns, bibs, toc].  The run is accepted when it is   *)
(* what the specification's parser returns.                                  *)
EXTENDS Parser, Toc

LOCAL Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES d, done
LOCAL R == Traces[d]
LOCAL Over(r) == \E i \in 1..Len(r.errs) : r.errs[i].kind \in {"over-budget", "unknown-date"}
LOCAL Say(tag, x) == PrintT(tag \o ToJson(x))
Skip(why) == Say("@@CASE ", [id |-> R.id, why |-> why])
Reject(what, want, got) == Say("@@REJECT ", [id |-> R.id, why |-> what, want |-> want, got |-> got])
Same(what, want, got) == IF want = got THEN TRUE ELSE Reject(what, want, got)
(* What the tree itself says was collected: its elements in order, with the  *)
(* contents of footnotes and bibliographies where these stand.               *)
RECURSIVE Met(_, _)
Met(a, e) ==
    LET Kids(b, es) == FoldLeft(Met, b, es)
        Note(b, x) == [b EXCEPT !.met = Append(@, x)]
    IN CASE e.n = "footnote" ->
              LET k == a.fn + 1 IN
              Kids([a EXCEPT !.fn = k], IF k <= Len(R.fns) THEN R.fns[k] ELSE <<>>)
         [] e.n = "bibliography-block" ->
              LET k == NumOf(Get(e, "index")) + 1 IN
              IF k > Len(R.bibs) \/ k \in a.bib THEN Note(a, <<"bibliography", "unknown">>)
              ELSE FoldLeft(LAMBDA b, x : Kids(b, x.els), [a EXCEPT !.bib = @ \cup {k}], R.bibs[k])
         [] e.n = "code" -> Note(a, <<"code", Get(e, "contents")>>)
         [] e.n = "html" -> Note(a, <<"html", Get(e, "contents")>>)
         [] IsContainer(e, "header") /\ Get(e, "has-toc") = "true" ->
              Kids([a EXCEPT !.heads = Append(@, [level |-> NumOf(Get(e, "level")) - 1, els |-> e.c])], e.c)
         [] OTHER -> Kids(a, e.c)
Gathered ==
    LET m == FoldLeft(Met, [fn |-> 0, bib |-> {}, met |-> <<>>, heads |-> <<>>], R.els)
        Of(k) == Map(LAMBDA x : x[2], SelectSeq(m.met, LAMBDA x : x[1] = k))
    IN [fns |-> m.fn, bibs |-> m.bib, code |-> Of("code"), html |-> Of("html"), unknown |-> Of("bibliography"),
        toc |-> TocTree(R.c, m.heads)]
Reported == [fns |-> Len(R.fns), bibs |-> 1..Len(R.bibs), code |-> Map(LAMBDA x : x.contents, R.code), html |-> R.html,
             unknown |-> <<>>, toc |-> R.toc]
Accept(r) ==
    /\ Same("gathered", Gathered, Reported)
    /\ IF Over(r) THEN Skip("budget")
       ELSE /\ Same("els", r.els, R.els) /\ Same("errs", r.errs, R.errs) /\ Same("html", r.html, R.html)
         /\ Same("code", r.code, R.code) /\ Same("fns", r.fns, R.fns) /\ Same("bibs", r.bibs, R.bibs)
         /\ Same("toc", TocTree(R.c, r.toc), R.toc)
TInit == d \in 1..Len(Traces) /\ done = FALSE
TNext == ~done /\ done' = TRUE /\ UNCHANGED d /\ Accept(ParsePage(R.c))
=============================================================================
