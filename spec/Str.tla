-------------------------------- MODULE Str --------------------------------
(* Text as TLA+ strings: what the parser and the renderers need of them.    *)
(* A position is a position in UTF-16 code units; characters outside the     *)
(* basic plane are only ever copied.                                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

LOCAL Up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOCAL Lo == "abcdefghijklmnopqrstuvwxyz"
LOCAL SetOf(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
Uppers == SetOf(Up)
Lowers == SetOf(Lo)
Digits == SetOf("0123456789")
Alnum == Uppers \cup Lowers \cup Digits
HexDigits == Digits \cup SetOf("abcdefABCDEF")

(* Unicode White_Space characters; the table holds those that cannot be      *)
(* written in a module.                                                      *)
LOCAL Consts == JsonDeserialize("consts.json")
WS == {Consts.ws[i] : i \in 1..Len(Consts.ws)}
(* second halves of characters outside the basic plane *)
LOCAL Second == {Consts.low[i] : i \in 1..Len(Consts.low)}
(* Printable ASCII in code order, for comparing and for \x escapes           *)
Ascii == Consts.ascii
LOCAL CodeMap == [c \in SetOf(Ascii) |-> CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]
Code(c) == IF c \in DOMAIN CodeMap THEN CodeMap[c] + 31 ELSE 1000
AsciiChar(n) == SubSeq(Ascii, n - 31, n - 31)

LOCAL LowMap == [c \in Uppers |-> SubSeq(Lo, CodeMap[c] - 33, CodeMap[c] - 33)]
LowC(c) == IF c \in Uppers THEN LowMap[c] ELSE c

C(s, i) == SubSeq(s, i, i)
Sub(s, i, j) == IF i > j THEN "" ELSE SubSeq(s, i, j)
From(s, i) == Sub(s, i, Len(s))
Idx(s) == [i \in 1..Len(s) |-> i]
FoldS(op(_, _), s, init) == FoldLeft(LAMBDA a, i : op(a, C(s, i)), init, Idx(s))

Lower(s) == IF \A i \in 1..Len(s) : C(s, i) \notin Uppers THEN s
            ELSE FoldS(LAMBDA a, c : a \o LowC(c), s, "")
LOCAL UpMap == [c \in Lowers |-> SubSeq(Up, CodeMap[c] - 65, CodeMap[c] - 65)]
Upper(s) == FoldS(LAMBDA a, c : a \o (IF c \in Lowers THEN UpMap[c] ELSE c), s, "")
EqCI(a, b) == Len(a) = Len(b) /\ (a = b \/ Lower(a) = Lower(b))

Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(p) <= Len(s) /\ Sub(s, Len(s) - Len(p) + 1, Len(s)) = p
AllIn(s, S) == \A i \in 1..Len(s) : C(s, i) \in S
AnyIn(s, S) == \E i \in 1..Len(s) : C(s, i) \in S
AllSpace(s) == AllIn(s, WS)

(* First position >= i of character c, or 0 *)
FindFrom(s, c, i) ==
    LET R[k \in i..(Len(s) + 1)] == IF k > Len(s) THEN 0 ELSE IF C(s, k) = c THEN k ELSE R[k + 1]
    IN IF i > Len(s) THEN 0 ELSE R[i]
FindC(s, c) == FindFrom(s, c, 1)
HasC(s, c) == \E i \in 1..Len(s) : C(s, i) = c
HasStr(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

TrimStartIn(s, S) ==
    IF s = "" \/ C(s, 1) \notin S THEN s
    ELSE LET k == CHOOSE k \in 1..(Len(s) + 1) : (k = Len(s) + 1 \/ C(s, k) \notin S) /\ \A m \in 1..(k - 1) : C(s, m) \in S
         IN From(s, k)
TrimEndIn(s, S) ==
    IF s = "" \/ C(s, Len(s)) \notin S THEN s
    ELSE LET k == CHOOSE k \in 0..Len(s) : (k = 0 \/ C(s, k) \notin S) /\ \A m \in (k + 1)..Len(s) : C(s, m) \in S
         IN Sub(s, 1, k)
TrimIn(s, S) == TrimEndIn(TrimStartIn(s, S), S)
Trim(s) == TrimIn(s, WS)
TrimStart(s) == TrimStartIn(s, WS)

(* The parts of s between occurrences of the character c *)
Split(s, c) ==
    LET r == FoldS(LAMBDA a, x : IF x = c THEN <<Append(a[1], a[2]), "">> ELSE <<a[1], a[2] \o x>>, s, <<<<>>, "">>)
    IN Append(r[1], r[2])
SplitWS(s) ==
    LET r == FoldS(LAMBDA a, x : IF x \in WS THEN (IF a[2] = "" THEN a ELSE <<Append(a[1], a[2]), "">>)
                                 ELSE <<a[1], a[2] \o x>>, s, <<<<>>, "">>)
    IN IF r[2] = "" THEN r[1] ELSE Append(r[1], r[2])
JoinS(parts, sep) ==
    FoldLeft(LAMBDA a, i : IF i = 1 THEN parts[1] ELSE a \o sep \o parts[i], "", [i \in 1..Len(parts) |-> i])
Concat(parts) == FoldLeft(LAMBDA a, x : a \o x, "", parts)
(* Every character c replaced by the string r *)
ReplaceC(s, c, r) == IF ~HasC(s, c) THEN s ELSE FoldS(LAMBDA a, x : a \o (IF x = c THEN r ELSE x), s, "")
(* Non-overlapping occurrences of p, leftmost first, replaced by r *)
ReplaceStr(s, p, r) ==
    IF ~HasStr(s, p) THEN s
    ELSE FoldLeft(LAMBDA a, i : IF i < a[2] THEN a
                                ELSE IF i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
                                THEN <<a[1] \o r, i + Len(p)>>
                                ELSE <<a[1] \o C(s, i), i + 1>>, <<"", 1>>, Idx(s))[1]
RepeatS(s, n) == FoldLeft(LAMBDA a, i : a \o s, "", [i \in 1..n |-> i])
CharCount(s) == Cardinality({i \in 1..Len(s) : SubSeq(s, i, i) \notin Second})
NumOf(s) == FoldS(LAMBDA a, c : 10 * a + (Code(c) - 48), s, 0)

(* a before b in byte order (ASCII) *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                     ELSE IF C(a, i) = C(b, i) THEN LessFrom(a, b, i + 1)
                     ELSE Code(C(a, i)) < Code(C(b, i))
LessS(a, b) == LessFrom(a, b, 1)

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Last1(s) == s[Len(s)]
Front1(s) == SubSeq(s, 1, Len(s) - 1)
(* every element of s mapped (evaluated at once, unlike a function) *)
Map(F(_), s) == FoldLeft(LAMBDA a, x : Append(a, F(x)), <<>>, s)
Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
=============================================================================
