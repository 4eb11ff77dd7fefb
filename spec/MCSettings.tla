----------------------------- MODULE MCSettings -----------------------------
EXTENDS Settings
VARIABLES mode, layout, done
MCInit == mode \in Modes /\ layout \in Layouts /\ done = FALSE
MCNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<mode, layout>>
          /\ PrintT("@@CASE " \o ToJson([mode |-> mode, layout |-> layout, switches |-> Switches(mode), interwiki |-> Interwiki]))
=============================================================================
