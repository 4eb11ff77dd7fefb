------------------------------- MODULE Chars -------------------------------
(* Text is a sequence of Unicode scalar values (integers).  This module      *)
(* gives the constants and classes of characters the other modules need.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

(* Printable ASCII in order; the code of the k-th one is k + 31. *)
LOCAL Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL CodeOf == [c \in {SubSeq(Ascii, k, k) : k \in 1..95} |->
                    (CHOOSE k \in 1..95 : SubSeq(Ascii, k, k) = c) + 31]

(* Lit("[[*") is the text <<91, 91, 42>>. *)
Lit(s) == [k \in 1..Len(s) |-> CodeOf[SubSeq(s, k, k)]]
Chr(s) == CodeOf[s]

(* Str(<<91, 91>>) is the string "[[" (printable ASCII only). *)
LOCAL Char(c) == SubSeq(Ascii, c - 31, c - 31)
Str(t) == FoldLeft(LAMBDA acc, c : acc \o Char(c), "", t)

TAB == 9   LF == 10   CR == 13   SP == 32   NBSP == 160   NUL == 0

IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)

(* Unicode White_Space *)
WhiteSpace == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202)
                \cup {8232, 8233, 8239, 8287, 12288}
IsSpace(c) == c \in WhiteSpace

ToLowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
ToLower(t) == [k \in 1..Len(t) |-> ToLowerC(t[k])]

(* Number of code units of a character in UTF-8 and in UTF-16. *)
U8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
U16(c) == IF c < 65536 THEN 1 ELSE 2
U8Len(t) == FoldLeft(LAMBDA n, c : n + U8(c), 0, t)
U16Len(t) == FoldLeft(LAMBDA n, c : n + U16(c), 0, t)

Least(S) == CHOOSE m \in S : \A n \in S : m <= n
Greatest(S) == CHOOSE m \in S : \A n \in S : n <= m

(* Does literal p stand in text t at position i? *)
At(t, i, p) == /\ i + Len(p) - 1 <= Len(t)
               /\ \A k \in 1..Len(p) : t[i + k - 1] = p[k]
StartsWith(t, p) == At(t, 1, p)
EndsWith(t, p) == Len(p) <= Len(t) /\ At(t, Len(t) - Len(p) + 1, p)

(* First position >= i at which literal p stands in t, or 0. *)
Find(t, i, p) ==
    LET C == {k \in i..(Len(t) - Len(p) + 1) : At(t, k, p)}
    IN IF C = {} THEN 0 ELSE Least(C)

(* First position >= i (up to Len(t) + 1) at which Stop holds of the         *)
(* character, or Len(t) + 1.                                                 *)
Skip(t, i, Stop(_)) ==
    CHOOSE k \in i..(Len(t) + 1) :
        (k = Len(t) + 1 \/ Stop(t[k])) /\ \A m \in i..(k - 1) : ~Stop(t[m])

From(t, i) == SubSeq(t, i, Len(t))

TrimStartBy(t, P(_)) == From(t, Skip(t, 1, LAMBDA c : ~P(c)))
TrimEndBy(t, P(_)) ==
    SubSeq(t, 1, CHOOSE k \in 0..Len(t) :
        (k = 0 \/ ~P(t[k])) /\ \A m \in (k + 1)..Len(t) : P(t[m]))
Trim(t) == TrimEndBy(TrimStartBy(t, IsSpace), IsSpace)

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Repeat(x, n) == [k \in 1..n |-> x]
=============================================================================
