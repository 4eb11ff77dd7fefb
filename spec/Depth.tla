------------------------------- MODULE Depth -------------------------------
(* Sequences of items with depths become trees.  A tree is a sequence of     *)
(* entries: [t |-> "item", x] or [t |-> "list", ty, sub].                    *)
EXTENDS Integers, Sequences, SequencesExt

LOCAL Item(x) == [t |-> "item", x |-> x]
LOCAL List(ty, sub) == [t |-> "list", ty |-> ty, sub |-> sub]

(* The machine: open levels (outermost first), each with its type and        *)
(* entries, and the finished top-level lists.                                *)
LOCAL Top(s) == s.open[Len(s.open)]
LOCAL Put(s, e) == [s EXCEPT !.open[Len(s.open)].es = Append(@, e)]
LOCAL Open(s, ty) == [s EXCEPT !.open = Append(@, [ty |-> ty, es |-> <<>>])]
LOCAL Close(s) == Put([s EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)], List(Top(s).ty, Top(s).es))
LOCAL Times(op(_), s, n) == FoldLeft(LAMBDA a, i : op(a), s, [i \in 1..n |-> i])
LOCAL Finish(s, ty) ==
    LET c == Times(Close, s, Len(s.open) - 1)
    IN [open |-> <<[ty |-> ty, es |-> <<>>]>>, prev |-> c.prev,
        done |-> IF c.open[1].es = <<>> THEN c.done ELSE Append(c.done, c.open[1])]
LOCAL Switch(s, ty) == IF Len(s.open) = 1 THEN Finish(s, ty) ELSE Open(Close(s), ty)
LOCAL Max0(n) == IF n > 0 THEN n ELSE 0

DepthInit(ty) == [open |-> <<[ty |-> ty, es |-> <<>>]>>, done |-> <<>>, prev |-> 0]
DepthStep(s, depth, ty, x) ==
    LET s1 == Times(LAMBDA a : Open(a, ty), s, Max0(depth - s.prev))
        s2 == Times(Close, s1, Max0(s.prev - depth))
        s3 == IF Top(s2).ty # ty THEN Switch(s2, ty) ELSE s2
    IN [Put(s3, Item(x)) EXCEPT !.prev = depth]
DepthResult(s) == Finish(s, "").done

(* items: a sequence of [depth, ty, x]; the result: a sequence of [ty, es]   *)
DepthTrees(top, items) ==
    DepthResult(FoldLeft(LAMBDA s, i : DepthStep(s, i.depth, i.ty, i.x), DepthInit(top), items))
=============================================================================
