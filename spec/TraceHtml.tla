----------------------------- MODULE TraceHtml -----------------------------
(* Each line of the file TRACES is a rendered page as events: [id, c, ev];   *)
(* c: fns (how many footnotes), hidden (a bibliography is hidden), toc (the  *)
(* identifiers of headings are not random), block (footnotes are listed).    *)
EXTENDS Html

LOCAL Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES d, done
LOCAL R == Traces[d]
TInit == d \in 1..Len(Traces) /\ done = FALSE
TNext == ~done /\ done' = TRUE /\ UNCHANGED d
         /\ LET fs == Faults(R.c, R.ev)
            IN fs = {} \/ PrintT("@@REJECT " \o ToJson([id |-> R.id, faults |-> SetToSeq(fs)]))
=============================================================================
