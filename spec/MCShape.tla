------------------------------ MODULE MCShape ------------------------------
(* The shapes of documents, as a machine that writes one: it opens a         *)
(* construct once or many times, writes text, interrupts, closes what is     *)
(* open, or closes something else, or stops with constructs left open.       *)
EXTENDS Str
VARIABLES text, stack, n, phase
v == <<text, stack, n, phase>>
Cs == JsonDeserialize(IOEnv.CONSTRUCTS)    \* a list of [o, c]: what opens and what closes
Times == JsonDeserialize(IOEnv.TIMES)      \* how many times
Gaps == JsonDeserialize(IOEnv.GAPS)        \* what interrupts
Bound == atoi(IOEnv.MAXLEN)
RECURSIVE Rep(_, _)
Rep(s, k) == IF k = 0 THEN "" ELSE IF k = 1 THEN s ELSE LET h == Rep(s, k \div 2) IN h \o h \o (IF k % 2 = 1 THEN s ELSE "")
Init == text = "" /\ stack = <<>> /\ n = 0 /\ phase = "write"
Act == phase = "write" /\ n < Bound /\ n' = n + 1 /\ UNCHANGED phase
Open == Act /\ \E i \in 1..Len(Cs) : \E t \in 1..Len(Times) :
          text' = text \o Rep(Cs[i].o, Times[t]) /\ stack' = Append(stack, <<i, Times[t]>>)
Gap == Act /\ \E i \in 1..Len(Gaps) : text' = text \o Gaps[i] /\ UNCHANGED stack
(* close the innermost ones: all, or one fewer, or one more *)
Close == Act /\ stack # <<>> /\ \E more \in {-1, 0, 1} :
           LET p == stack[Len(stack)] IN
           p[2] + more > 0 /\ text' = text \o Rep(Cs[p[1]].c, p[2] + more) /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
(* close the outermost ones first *)
Cross == Act /\ Len(stack) > 1 /\ text' = text \o Rep(Cs[stack[1][1]].c, stack[1][2]) /\ stack' = Tail(stack)
(* close everything in order, and stop *)
RECURSIVE Closers(_)
Closers(st) == IF st = <<>> THEN "" ELSE Rep(Cs[st[Len(st)][1]].c, st[Len(st)][2]) \o Closers(SubSeq(st, 1, Len(st) - 1))
Finish == phase = "write" /\ n > 0 /\ phase' = "done" /\ UNCHANGED n
          /\ \/ stack # <<>> /\ text' = text \o "x" \o Closers(stack) /\ stack' = <<>>
             \/ UNCHANGED <<text, stack>>
          /\ PrintT("@@CASE " \o ToJson([text |-> text', open |-> Len(stack')]))
Next == Open \/ Gap \/ Close \/ Cross \/ Finish
Depth == Len(stack) <= n
=============================================================================
