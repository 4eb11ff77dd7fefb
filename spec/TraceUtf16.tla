----------------------------- MODULE TraceUtf16 -----------------------------
(* Recorded tokens and errors, with byte and with UTF-16 positions.  c: the  *)
(* text; toks, toks16: <<start, end>>; kinds: of the tokens; errs, errs16:   *)
(* <<start, end, token kind>>.                                               *)
EXTENDS Utf16, TLC, Json, IOUtils
LOCAL Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES d, done
LOCAL R == Traces[d]
(* entry b + 1: the UTF-16 position of byte position b, -1 within characters *)
Table(t) == FoldLeft(LAMBDA a, c : [m |-> a.m \o [k \in 1..(U8(c) - 1) |-> -1] \o <<a.u + U16(c)>>, u |-> a.u + U16(c)],
                     [m |-> <<0>>, u |-> 0], t).m
Reject(why, at) == PrintT("@@REJECT " \o ToJson([id |-> R.id, why |-> why, at |-> at]))
LOCAL Moved(M, a, b) == a[1] + 1 \in DOMAIN M /\ a[2] + 1 \in DOMAIN M /\ b[1] = M[a[1] + 1] /\ b[2] = M[a[2] + 1]
Check(M) ==
    LET badtok == {i \in 1..Len(R.toks) : ~Moved(M, R.toks[i], R.toks16[i])}
        baderr == {i \in 1..Len(R.errs) : ~Moved(M, R.errs[i], R.errs16[i]) \/ R.errs[i][3] # R.errs16[i][3]}
        stray == {i \in 1..Len(R.errs) : ~\E k \in 1..Len(R.toks) : R.toks[k] = <<R.errs[i][1], R.errs[i][2]>> /\ R.kinds[k] = R.errs[i][3]}
    IN /\ Len(R.toks16) = Len(R.toks) \/ Reject("number of UTF-16 tokens", 0)
       /\ Len(R.errs16) = Len(R.errs) \/ Reject("number of UTF-16 errors", 0)
       /\ badtok = {} \/ Reject("UTF-16 position of a token", badtok)
       /\ baderr = {} \/ Reject("UTF-16 position of an error", baderr)
       /\ stray = {} \/ Reject("an error names no token", stray)
TInit == d \in 1..Len(Traces) /\ done = FALSE
TNext == ~done /\ done' = TRUE /\ UNCHANGED d /\ Check(Table(R.c))
=============================================================================
