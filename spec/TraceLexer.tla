---------------------------- MODULE TraceLexer ----------------------------
(* Recorded tokenizations (one per line of the file TRACES, each             *)
(* [id, c: characters, toks: <<[k, a, b, s]>>]) are behaviours of Lexer: the *)
(* machine runs on the recorded text and must emit the recorded tokens.      *)
EXTENDS Lexer, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE d
tvars == <<lexvars, d>>

Rec == Traces[d]
Shown == Rec.toks
Fits(o) == /\ Len(o) <= Len(Shown)
           /\ \A i \in (Len(out) + 1)..Len(o) : o[i] = Shown[i]
TInit == /\ d \in 1..Len(Traces) /\ LexInit(Traces[d].c)
Reject(why, at) ==
    PrintT("@@REJECT " \o ToJson([id |-> Rec.id, why |-> why, at |-> at]))
TNext ==
    /\ pos <= Len(text) + 1
    /\ LexNext
    /\ IF Fits(out') /\ (LexDone' => Len(out') = Len(Shown) /\ out'[1] = Shown[1]) THEN TRUE
       ELSE Reject("token differs from the lexical grammar", Len(out)) /\ FALSE
    /\ UNCHANGED d
=============================================================================
