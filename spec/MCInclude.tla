----------------------------- MODULE MCInclude -----------------------------
(* Texts composed of pieces, and includers of every kind.  Including is a    *)
(* machine: the directives are found, the includer is asked, its answer is   *)
(* checked, then the directives are replaced one by one, from the last.      *)
EXTENDS Include
VARIABLES text, n, fault, phase, out, todo
Bound == atoi(IOEnv.MAXLEN)
Pieces == JsonDeserialize(IOEnv.PIECES)
Faults == {"", "fetch-error", "drop-last", "extra", "swap", "wrong-ref", "wrong-last", "other-site", "no-site", "longer", "missing-error", "null", "debug"}
Pages == [a |-> Some("A{$x}{$y}"), b |-> Some(""), p |-> Some("{$x}\n[[include a]]")]
v == <<text, n, fault, phase, out, todo>>
Init == text = "" /\ n = 0 /\ fault = "" /\ phase = "text" /\ out = "" /\ todo = 0
Grow == phase = "text" /\ n < Bound /\ \E i \in 1..Len(Pieces) : text' = text \o Pieces[i] /\ n' = n + 1 /\ UNCHANGED <<fault, phase, out, todo>>
Ask == phase = "text" /\ phase' = "asked" /\ (IF Directives(text) = <<>> THEN fault' \in {"", "extra", "null"} ELSE fault' \in Faults) /\ UNCHANGED <<text, n, out, todo>>
Check == /\ phase = "asked"
         /\ LET ds == Directives(text)
                a == AnswerOf(fault, ds, Pages)
            IN IF fault = "fetch-error" \/ ~Matches(ds, a) THEN phase' = "failed" /\ UNCHANGED <<out, todo>>
               ELSE phase' = "splice" /\ out' = text /\ todo' = Len(ds)
         /\ UNCHANGED <<text, n, fault>>
Splice == /\ phase = "splice" /\ todo > 0
          /\ LET ds == Directives(text)
                 d == ds[todo]
                 a == AnswerOf(fault, ds, Pages)[todo]
             IN IF ~a.content.some /\ fault = "missing-error" THEN phase' = "failed" /\ UNCHANGED <<out, todo>>
                ELSE /\ out' = Sub(out, 1, d.b - 1) \o (IF a.content.some THEN Replaced(a.content.v, d.vars) ELSE Missing(fault, d.page)) \o From(out, d.e)
                     /\ todo' = todo - 1 /\ UNCHANGED phase
          /\ UNCHANGED <<text, n, fault>>
Done == /\ phase = "splice" /\ todo = 0 /\ phase' = "done" /\ UNCHANGED <<text, n, fault, out, todo>>
        /\ PrintT("@@CASE " \o ToJson([text |-> text, fault |-> fault, r |-> Included(text, TRUE, fault, Pages)]))
Fail == /\ phase = "failed" /\ phase' = "done" /\ UNCHANGED <<text, n, fault, out, todo>>
        /\ PrintT("@@CASE " \o ToJson([text |-> text, fault |-> fault, r |-> Included(text, TRUE, fault, Pages)]))
Next == Grow \/ Ask \/ Check \/ Splice \/ Done \/ Fail
(* directives are in order and apart *)
Apart == LET ds == Directives(text) IN \A i \in 1..Len(ds) : ds[i].b + 13 <= ds[i].e /\ (i > 1 => ds[i - 1].e <= ds[i].b)
(* replacing from the last gives the same as replacing from the first, and nothing else changes *)
Same == phase = "splice" /\ todo = 0 => out = Included(text, TRUE, fault, Pages).output
Failed == phase = "failed" => Included(text, TRUE, fault, Pages).error # ""
Kept == phase = "splice" => LET ds == Directives(text) IN
          IF ds = <<>> THEN out = text
          ELSE LET bs == Between(text, ds) IN Starts(out, bs[1]) /\ Ends(out, Last1(bs))
=============================================================================
