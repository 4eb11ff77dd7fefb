------------------------------ MODULE MCUtf16 ------------------------------
(* The map for all texts of up to MaxLen characters of each width.           *)
EXTENDS Utf16, TLC, Json, IOUtils
VARIABLES text, done
Texts == UNION {[1..m -> {97, 233, 8364, 128512}] : m \in 0..atoi(IOEnv.MAXLEN)}
MCInit == text \in Texts /\ done = FALSE
MCNext == /\ ~done /\ done' = TRUE /\ UNCHANGED text
          /\ PrintT("@@CASE " \o ToJson([text |-> text, map |-> Boundaries(text)]))
(* The map is increasing, starts at zero and never exceeds the byte index. *)
Sound == LET B == Boundaries(text) IN
    /\ B[1] = <<0, 0>> /\ B[Len(B)] = <<U8Len(text), U16Len(text)>>
    /\ \A i \in 1..(Len(B) - 1) : B[i][1] < B[i + 1][1] /\ B[i][2] < B[i + 1][2] /\ B[i][2] <= B[i][1]
=============================================================================
