------------------------------ MODULE MCNames ------------------------------
(* Every name of every block, as a machine that writes one block: its        *)
(* brackets and flags, its name in some casing, its arguments (@A) and body  *)
(* (@B), and an end which is its own, another name of the same block, one of *)
(* another block, or missing.                                                *)
EXTENDS Parser
VARIABLES blk, nm, doc, phase
LOCAL Casings(s) == {s, Upper(s), Upper(Sub(s, 1, 1)) \o From(s, 2)}
HowEnded == {"own", "again", "other", "spaced", "scored", "none"}
MCInit == blk \in Blocks /\ nm \in blk.names /\ doc = "" /\ phase = "open"
WriteHead == /\ phase = "open" /\ phase' = "gap" /\ UNCHANGED <<blk, nm>>
        /\ \E n \in Casings(nm), star \in {"", "*"}, sp \in {"", " "}, sc \in {"", "_"} :
             \* at most two of the unusual things
             /\ Cardinality({i \in 1..4 : <<n # nm, star # "", sp # "", sc # "">>[i]}) <= 2
             /\ doc' = "[[" \o star \o sp \o n \o sc \o "@A" \o sp \o "]]"
WriteBody == /\ phase = "gap" /\ phase' = "end" /\ UNCHANGED <<blk, nm>>
       /\ \E g \in {"", "\n", "\n\n"} : doc' = doc \o g \o "@B" \o g
WriteEnd == /\ phase = "end" /\ phase' = "done" /\ UNCHANGED <<blk, nm>>
       /\ \E e \in HowEnded, m \in blk.names :
            /\ e \in {"own", "again"} \/ m = nm
            /\ doc' = doc \o CASE e = "own" -> "[[/" \o m \o "]]"
                                 [] e = "again" -> "[[/" \o Upper(m) \o "]]"
                                 [] e = "other" -> IF blk.rule = "block-div" THEN "[[/span]]" ELSE "[[/div]]"
                                 [] e = "spaced" -> "[[/ " \o m \o " ]]"
                                 [] e = "scored" -> "[[/" \o m \o "_]]"
                                 [] OTHER -> ""
            /\ PrintT("@@CASE " \o ToJson([rule |-> blk.rule, text |-> doc']))
MCNext == WriteHead \/ WriteBody \/ WriteEnd
(* a block is found under each of its names, however written, and no other's *)
Known == BlockNamed(nm) = blk /\ BlockNamed(Upper(nm)) = blk /\ \A o \in Blocks : nm \in o.names => o = blk
=============================================================================
