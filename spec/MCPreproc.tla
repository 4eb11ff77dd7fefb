----------------------------- MODULE MCPreproc -----------------------------
(* All texts of length <= MaxLen over small alphabets, each printed with the *)
(* text after the whitespace phases and after all phases.                    *)
EXTENDS Preproc, TLC, Json, IOUtils

Alphabets == << <<97, LF, CR, SP, TAB>>, <<97, LF, 160, SP, 8199>>, <<97, LF, 92, SP, 0>>,
                <<97, LF, 96, 39, 44>>, <<97, 46, SP, LF, 96>>, <<233, LF, 92, CR, 8232>>,
                <<46, SP>>, <<96, 39>>, <<LF, SP>> >>
Lengths == <<0, 0, 0, 0, 0, 0, 5, 5, 5>>
MaxLen == atoi(IOEnv.MAXLEN)
Over(A, n) == UNION {[1..m -> {A[i] : i \in 1..Len(A)}] : m \in 0..n}
Texts == UNION {Over(Alphabets[k], MaxLen + Lengths[k]) : k \in 1..Len(Alphabets)}

VARIABLE ws
MCInit == \E t \in Texts : PreInit(t) /\ ws = <<>>
MCNext == /\ PreStep
          /\ ws' = IF phase = WhitespacePhases THEN cur' ELSE ws
          /\ phase = Len(Phases) =>
                PrintT("@@CASE " \o ToJson([text |-> source, ws |-> ws, out |-> cur', ty |-> Typographed(source)]))
mcvars == <<prevars, ws>>
MCSpec == MCInit /\ [][MCNext]_mcvars
=============================================================================
