---------------------------- MODULE TraceHistory ----------------------------
(* Recorded histories: [id, events, values (one per item), same (one per     *)
(* item: whether a copy compared equal), errors (one per item: those of a    *)
(* parse), base (term -> value, as a process of its own computes it)].       *)
EXTENDS History
LOCAL Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES d, n, items, busy
LOCAL R == Traces[d]
TInit == d \in 1..Len(Traces) /\ n = 0 /\ items = <<>> /\ busy = [t \in 0..7 |-> Nothing]
TNext == /\ n < Len(R.events) /\ n' = n + 1 /\ UNCHANGED d
         /\ LET e == R.events[n + 1] IN
            IF e[1] = "start" THEN busy' = Started(items, busy, e) /\ UNCHANGED items
            ELSE LET it == busy[e[2]]
                     k == Len(items) + 1
                 IN /\ items' = Append(items, it) /\ busy' = [busy EXCEPT ![e[2]] = Nothing]
                    /\ (R.values[k] = R.base[it.term] /\ R.same[k] /\ (it.parse => R.errors[k] = R.base["errors of " \o it.term])) \/ PrintT("@@REJECT " \o ToJson([id |-> R.id, at |-> k, term |-> it.term, same |-> R.same[k]]))
=============================================================================
