------------------------------- MODULE Utf16 -------------------------------
(* Byte index -> UTF-16 index, for every character boundary of a text.       *)
EXTENDS Chars

(* The k-th pair (from 0) is the boundary before character k + 1. *)
Boundaries(t) ==
    FoldLeft(LAMBDA acc, c : Append(acc, << acc[Len(acc)][1] + U8(c), acc[Len(acc)][2] + U16(c) >>),
             << <<0, 0>> >>, t)
Map16(t) == LET B == Boundaries(t)
            IN [x \in {B[i][1] : i \in 1..Len(B)} |->
                    B[CHOOSE i \in 1..Len(B) : B[i][1] = x][2]]
=============================================================================
