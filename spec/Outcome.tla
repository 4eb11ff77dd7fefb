------------------------------ MODULE Outcome ------------------------------
(* What every run does: it passes its stages in order, each of them returns, *)
(* and the time it takes is in proportion to the square of the text at most. *)
EXTENDS Str

(* the stages of a run; `including` tells whether it begins with including *)
StagesOf(op, including) ==
    IF op = "include" THEN <<"include">>
    ELSE (IF including THEN <<"include">> ELSE <<>>) \o <<"preprocess", "tokenize", "parse", "render-html", "render-text", "end">>

(* Milliseconds of a processor which a run of n characters may take (of the  *)
(* unoptimised build).  The constant allows for everything that is set up    *)
(* once; the square for trying each rule at each place with each unfinished  *)
(* construct around it.                                                      *)
Budget(n) == 4000 + n * (n \div 150)
(* Where the text is a row of lines or words of which each is complete, they *)
(* take what they take by themselves.                                        *)
EvenBudget(n) == 4000 + n \div 20

(* A run as a machine: it is at a stage, and returns or goes to the next. *)
Returned(r) == r.outcome = "ok" /\ r.stages = StagesOf(r.op, r.including)
InTime(r) == r.cpu <= IF r.even THEN EvenBudget(r.n) ELSE Budget(r.n)
=============================================================================
