---------------------------- MODULE TraceOutcome ----------------------------
(* Each line of TRACES is a run: [id, op, including, n, outcome, stages,     *)
(* cpu].  The machine follows the stages; every run must reach the last one. *)
EXTENDS Outcome
LOCAL Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES d, at, over
LOCAL R == Traces[d]
LOCAL Want == StagesOf(R.op, R.including)
TInit == d \in 1..Len(Traces) /\ at = 0 /\ over = FALSE
TNext == ~over /\ UNCHANGED d
         /\ IF at < Len(R.stages) /\ at < Len(Want) /\ R.stages[at + 1] = Want[at + 1] THEN at' = at + 1 /\ UNCHANGED over
            ELSE /\ over' = TRUE /\ UNCHANGED at
                 /\ (IF ~(Returned(R) /\ at = Len(Want)) THEN PrintT("@@REJECT " \o ToJson([id |-> R.id, why |-> R.outcome, stage |-> IF at = 0 THEN "" ELSE Want[at]]))
                     ELSE InTime(R) \/ PrintT("@@REJECT " \o ToJson([id |-> R.id, why |-> "slow", stage |-> "", budget |-> Budget(R.n)])))
=============================================================================
