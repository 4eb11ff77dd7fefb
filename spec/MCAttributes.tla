---------------------------- MODULE MCAttributes ----------------------------
(* The attributes of an element as its own object: names are given values,   *)
(* taken away, and the identifier isolated, in any order.  The state is the  *)
(* values by name, and the history with what each step answered; every       *)
(* history is printed.                                                       *)
EXTENDS Text
VARIABLES attrs, hist
Names == {"id", "class", "ID", "onclick", "data-x", "data-", "href", "idx"}
Given == {"a", "u-a b", ""}
Bound == atoi(IOEnv.MAXLEN)
With(k, v) == [x \in DOMAIN attrs \cup {k} |-> IF x = k THEN v ELSE attrs[x]]
Step(a, answer) == hist' = Append(hist, [do |-> a, answer |-> answer])
Insert(k, v) == LET ok == SafeAttribute(Lower(k)) IN
    /\ attrs' = IF ok THEN With(k, v) ELSE attrs
    /\ Step(<<"insert", k, v>>, IF ok THEN "kept" ELSE "left out")
TakeAway(k) ==
    /\ attrs' = [x \in DOMAIN attrs \ {k} |-> attrs[x]]
    /\ Step(<<"remove", k, "">>, IF k \in DOMAIN attrs THEN "was " \o attrs[k] ELSE "none")
Isolate(on) ==
    /\ attrs' = IF on /\ "id" \in DOMAIN attrs THEN With("id", Isolated(attrs["id"])) ELSE attrs
    /\ Step(<<"isolate", IF on THEN "on" ELSE "off", "">>, "")
MCInit == attrs = [x \in {} |-> ""] /\ hist = <<>>
MCNext ==
    /\ Len(hist) < Bound
    /\ \/ \E k \in Names, v \in Given : Insert(k, v)
       \/ \E k \in Names \ {"idx", "data-"} : TakeAway(k)
       \/ \E on \in BOOLEAN : Isolate(on)
    /\ Len(hist') = Bound => PrintT("@@CASE " \o ToJson([hist |-> hist', attrs |-> attrs']))
(* only allowed names are ever there *)
Safe == \A k \in DOMAIN attrs : SafeAttribute(Lower(k))
(* after isolation, and until another is given, each identifier bears the prefix, once *)
IsolatedOnce == hist # <<>> /\ hist[Len(hist)].do = <<"isolate", "on", "">> /\ "id" \in DOMAIN attrs =>
    LET w == SplitWS(attrs["id"]) IN \A i \in 1..Len(w) : Starts(w[i], "u-") /\ ~Starts(w[i], "u-u-")
=============================================================================
