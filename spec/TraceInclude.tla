---------------------------- MODULE TraceInclude ----------------------------
(* Each line of the file TRACES is a run of including: [id, text, pagesyn,   *)
(* fault, pages, got].                                                       *)
EXTENDS Include
LOCAL Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES d, done
LOCAL R == Traces[d]
TInit == d \in 1..Len(Traces) /\ done = FALSE
TNext == ~done /\ done' = TRUE /\ UNCHANGED d
         /\ LET w == Included(R.text, R.pagesyn, R.fault, R.pages)
            IN w = R.got \/ PrintT("@@REJECT " \o ToJson([id |-> R.id, want |-> w]))
=============================================================================
