--------------------------- MODULE TracePreproc ---------------------------
(* Recorded preprocessings [id, src, ws, ty, out] (texts as characters): the *)
(* machine runs on src; the text after the whitespace phases must be ws, the *)
(* final one out; ty is the source after the typographic phases alone.       *)
EXTENDS Preproc, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE d
Rec == Traces[d]
Reject(why) == PrintT("@@REJECT " \o ToJson([id |-> Rec.id, why |-> why, want |-> cur']))
TInit == d \in 1..Len(Traces) /\ PreInit(Traces[d].src)
TNext ==
    /\ PreStep
    /\ CASE phase = WhitespacePhases -> IF cur' = Rec.ws THEN TRUE ELSE Reject("after whitespace") /\ FALSE
         [] phase = Len(Phases) ->
                IF cur' # Rec.out THEN Reject("after typography") /\ FALSE
                ELSE IF Typographed(source) # Rec.ty THEN Reject("typography alone") /\ FALSE
                ELSE TRUE
         [] OTHER -> TRUE
    /\ UNCHANGED d
=============================================================================
