------------------------------ MODULE MCValues ------------------------------
(* The values of arguments, as a machine which writes what stands between     *)
(* the quotes piece by piece: E stands for a character outside ASCII and W    *)
(* for one outside the BMP.  What a value means is Unquote; its laws are      *)
(* checked on each, and the documents holding it go to the implementation.    *)
EXTENDS Parser
MAXVAL == atoi(IOEnv.MAXLEN)
VARIABLES val, len
valvars == <<val, len>>
Ordinary == {"a", "E", "W", " ", "'", "n", "]", "&"}
Escapes == {"\\\"", "\\\\", "\\'", "\\n", "\\t", "\\r", "\\a", "\\E", "\\W", "\\ ", "\\]", "\\N"}
VInit == val = "" /\ len = 0
VNext == /\ len < MAXVAL /\ len' = len + 1
         /\ \E p \in Ordinary \cup Escapes : val' = val \o p
         /\ PrintT("@@CASE " \o ToJson([val |-> val', means |-> Unquote(Quote \o val' \o Quote)]))
VSpec == VInit /\ [][VNext]_valvars
Meaning == Unquote(Quote \o val \o Quote)
(* what is written with every mark escaped comes back as it was *)
Escaped(s) == FoldS(LAMBDA a, c : a \o (IF c \in {"\\", Quote} THEN "\\" ELSE "") \o c, s, "")
ReadsBack == Unquote(Quote \o Escaped(val) \o Quote) = val
(* without a backslash a value is what stands there; nothing but backslashes vanishes *)
Literal == ~HasC(val, "\\") => Meaning = val
Shrinks == Len(Meaning) <= Len(val) /\ Len(val) <= 2 * Len(Meaning)
(* an unquoted text is no value *)
Bare == ~Starts(val, Quote) => Unquote(val) = val
=============================================================================
