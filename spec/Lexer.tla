------------------------------- MODULE Lexer -------------------------------
(* The lexical grammar of wikitext (a parsing expression grammar), as a      *)
(* state machine that emits one token per step.                              *)
(*                                                                           *)
(* LexAt(t, i) is the sequence of tokens [k |-> kind, n |-> characters] the  *)
(* grammar emits at position i of text t: one token, except for the runs of  *)
(* four brackets, which are always a plain bracket and a triple one.         *)
EXTENDS Chars

(* Literal tokens which come before the text-like ones. *)
LOCAL Early == <<
    <<"raw", Lit("@@")>>, <<"left-raw", Lit("@<")>>, <<"right-raw", Lit(">@")>>,
    <<"left-comment", Lit("[!--")>>, <<"right-comment", Lit("--]")>> >>

(* Literal tokens after them, in order of priority. *)
LOCAL Brackets == <<
    <<"left-link-star", Lit("[[[*")>>, <<"left-link", Lit("[[[")>>,
    <<"left-math", Lit("[[$")>>, <<"left-block-anchor", Lit("[[#")>>,
    <<"left-block-star", Lit("[[*")>>, <<"left-block-end", Lit("[[/")>>,
    <<"left-block", Lit("[[")>>, <<"left-bracket-anchor", Lit("[#")>>,
    <<"left-bracket-star", Lit("[*")>>, <<"left-bracket", Lit("[")>>,
    <<"left-parentheses", Lit("((")>>,
    <<"right-link", Lit("]]]")>>, <<"right-math", Lit("$]]")>>,
    <<"right-block", Lit("]]")>>, <<"right-bracket", Lit("]")>>,
    <<"right-parentheses", Lit("))")>>,
    <<"bold", Lit("**")>>, <<"italics", Lit("//")>>, <<"underline", Lit("__")>>,
    <<"superscript", Lit("^^")>>, <<"subscript", Lit(",,")>>, <<"color", Lit("##")>>,
    <<"left-monospace", Lit("{{")>>, <<"right-monospace", Lit("}}")>>,
    <<"table-column-title", Lit("||~")>>, <<"table-column-left", Lit("||<")>>,
    <<"table-column-right", Lit("||>")>>, <<"table-column-center", Lit("||=")>>,
    <<"table-column", Lit("||")>> >>

(* Literal tokens after the runs of tildes and dashes. *)
LOCAL Late == <<
    <<"double-tilde", Lit("~~")>>, <<"left-double-angle", Lit("<<")>>,
    <<"pipe", Lit("|")>>, <<"equals", Lit("=")>>, <<"colon", Lit(":")>>,
    <<"underscore", Lit("_")>> >>

TokenKinds == {Early[i][1] : i \in 1..Len(Early)} \cup {Brackets[i][1] : i \in 1..Len(Brackets)}
    \cup {Late[i][1] : i \in 1..Len(Late)}
    \cup {"url", "identifier", "variable", "string", "clear-float-left", "clear-float-right",
          "clear-float-both", "triple-dash", "double-dash", "quote", "heading", "bullet-item",
          "numbered-item", "paragraph-break", "line-break", "whitespace", "other"}

LOCAL None == <<>>
LOCAL One(k, n) == << [k |-> k, n |-> n] >>

LOCAL FirstLit(t, i, table) ==
    LET C == {k \in 1..Len(table) : At(t, i, table[k][2])}
    IN IF C = {} THEN None
       ELSE LET k == CHOOSE k \in C : \A m \in C : k <= m
            IN One(table[k][1], Len(table[k][2]))

LOCAL IsNl(c) == c = LF \/ c = CR
LOCAL NotAlnum(c) == ~IsAlnum(c)
(* Number of newlines: CR LF counts as one.  Returns <<count, end>>. *)
RECURSIVE NlRun(_, _, _)
NlRun(t, i, n) ==
    IF i <= Len(t) /\ t[i] = LF THEN NlRun(t, i + 1, n + 1)
    ELSE IF i <= Len(t) /\ t[i] = CR
         THEN NlRun(t, IF i < Len(t) /\ t[i + 1] = LF THEN i + 2 ELSE i + 1, n + 1)
    ELSE <<n, i>>
LOCAL NlLen(t, i) == IF t[i] = CR /\ i < Len(t) /\ t[i + 1] = LF THEN 2 ELSE 1

LOCAL Schemes == << Lit("http://"), Lit("https://"), Lit("ftp://") >>
LOCAL UrlStop == {LF, CR, SP, Chr("|"), Chr("["), Chr("]")}
LOCAL Url(t, i) ==
    LET C == {k \in 1..3 : At(t, i, Schemes[k])}
    IN IF C = {} THEN None
       ELSE LET k == CHOOSE k \in C : TRUE
                s == i + Len(Schemes[k])
                e == Skip(t, s, LAMBDA c : c \in UrlStop)
            IN IF e > s THEN One("url", e - i) ELSE None

LOCAL Identifier(t, i) ==
    LET e == Skip(t, i, NotAlnum) IN IF e > i THEN One("identifier", e - i) ELSE None

LOCAL Variable(t, i) ==
    IF ~At(t, i, Lit("{$")) THEN None
    ELSE LET e == Skip(t, i + 2, NotAlnum)
         IN IF e > i + 2 /\ At(t, e, Lit("}")) THEN One("variable", e + 1 - i) ELSE None

(* The position of the quote that ends a string whose body starts at i, or 0. *)
RECURSIVE StringEnd(_, _)
StringEnd(t, i) ==
    IF i > Len(t) THEN 0
    ELSE IF t[i] = 34 THEN i
    ELSE IF IsNl(t[i]) THEN 0
    ELSE IF t[i] = 92 THEN (IF i + 1 > Len(t) \/ IsNl(t[i + 1]) THEN 0 ELSE StringEnd(t, i + 2))
    ELSE StringEnd(t, i + 1)
LOCAL QString(t, i) ==
    IF t[i] # 34 THEN None
    ELSE LET e == StringEnd(t, i + 1) IN IF e = 0 THEN None ELSE One("string", e + 1 - i)

LOCAL Four(t, i) ==
    IF At(t, i, Lit("[[[["))
    THEN << [k |-> "left-bracket", n |-> 1], [k |-> "left-link", n |-> 3] >>
    ELSE IF At(t, i, Lit("]]]]"))
    THEN << [k |-> "right-link", n |-> 3], [k |-> "right-bracket", n |-> 1] >>
    ELSE None

LOCAL Runs(t, i) ==
    LET c == t[i] IN
    IF c = Chr("~") THEN
        LET e == Skip(t, i, LAMBDA x : x # Chr("~"))
        IN IF e - i < 3 THEN None
           ELSE IF At(t, e, Lit("<")) THEN One("clear-float-left", e + 1 - i)
           ELSE IF At(t, e, Lit(">")) THEN One("clear-float-right", e + 1 - i)
           ELSE One("clear-float-both", e - i)
    ELSE IF c = Chr("-") THEN
        LET e == Skip(t, i, LAMBDA x : x # Chr("-"))
        IN IF e - i >= 3 THEN One("triple-dash", e - i)
           ELSE IF e - i = 2 THEN One("double-dash", 2)
           ELSE None
    ELSE None

LOCAL Marks(t, i) ==
    LET c == t[i]
        isAt(j, x) == j <= Len(t) /\ t[j] = x
    IN
    IF c = Chr(">") THEN One("quote", Skip(t, i, LAMBDA x : x # Chr(">")) - i)
    ELSE IF c = Chr("+") THEN
        LET e == MinI(Skip(t, i, LAMBDA x : x # Chr("+")), i + 6)
        IN One("heading", IF isAt(e, Chr("*")) /\ ~isAt(e + 1, Chr("*")) THEN e + 1 - i ELSE e - i)
    ELSE IF c = Chr("*") THEN One("bullet-item", 1)      \* "**" has been taken by bold
    ELSE IF c = Chr("#") THEN One("numbered-item", 1)    \* "##" has been taken by color
    ELSE IF IsNl(c) THEN
        LET r == NlRun(t, i, 0)
        IN IF r[1] >= 2 THEN One("paragraph-break", r[2] - i) ELSE One("line-break", NlLen(t, i))
    ELSE IF c = SP \/ c = TAB THEN
        One("whitespace", Skip(t, i, LAMBDA x : x # SP /\ x # TAB) - i)
    ELSE One("other", 1)

LexAt(t, i) ==
    LET a == FirstLit(t, i, Early) IN IF a # None THEN a ELSE
    LET b == Url(t, i) IN IF b # None THEN b ELSE
    LET c == Identifier(t, i) IN IF c # None THEN c ELSE
    LET d == Variable(t, i) IN IF d # None THEN d ELSE
    LET e == QString(t, i) IN IF e # None THEN e ELSE
    LET f == Four(t, i) IN IF f # None THEN f ELSE
    LET g == FirstLit(t, i, Brackets) IN IF g # None THEN g ELSE
    LET h == Runs(t, i) IN IF h # None THEN h ELSE
    LET j == FirstLit(t, i, Late) IN IF j # None THEN j ELSE
    Marks(t, i)

-----------------------------------------------------------------------------
(* The machine.  text is the input, pos the next character (from 1), u8 the  *)
(* bytes consumed, out the tokens emitted, each with its byte span.          *)
VARIABLES text, pos, u8, out
lexvars == <<text, pos, u8, out>>

LexInit(t) == /\ text = t /\ pos = 1 /\ u8 = 0
              /\ out = << [k |-> "input-start", a |-> 0, b |-> 0, s |-> <<>>] >>

(* Append the tokens ts, which start at character i and byte b. *)
RECURSIVE Emit(_, _, _, _)
Emit(ts, i, b, acc) ==
    IF ts = <<>> THEN acc
    ELSE LET s == SubSeq(text, i, i + Head(ts).n - 1)
             e == b + U8Len(s)
         IN Emit(Tail(ts), i + Head(ts).n, e,
                 Append(acc, [k |-> Head(ts).k, a |-> b, b |-> e, s |-> s]))

LexStep ==
    /\ pos <= Len(text)
    /\ LET ts == LexAt(text, pos)
           new == Emit(ts, pos, u8, <<>>)
       IN /\ out' = out \o new
          /\ pos' = pos + FoldLeft(LAMBDA n, x : n + x.n, 0, ts)
          /\ u8' = new[Len(new)].b
    /\ UNCHANGED text

LexEnd ==
    /\ pos = Len(text) + 1
    /\ out' = Append(out, [k |-> "input-end", a |-> u8, b |-> u8, s |-> <<>>])
    /\ pos' = pos + 1
    /\ UNCHANGED <<text, u8>>

LexNext == LexStep \/ LexEnd
LexDone == pos = Len(text) + 2

(* What the machine guarantees of every text. *)
Tiles == /\ out[1].k = "input-start" /\ out[1].a = 0
         /\ \A i \in 2..Len(out) : out[i].a = out[i - 1].b
         /\ \A i \in 2..Len(out) : out[i].k # "input-end" => out[i].b > out[i].a
         /\ u8 = out[Len(out)].b
Covers == FlattenSeq([i \in 1..Len(out) |-> out[i].s]) = SubSeq(text, 1, MinI(pos - 1, Len(text)))
EndsOnce == /\ \A i \in 2..Len(out) : out[i].k # "input-start"
            /\ \A i \in 1..Len(out) : out[i].k = "input-end" => (i = Len(out) /\ LexDone)
KindsKnown == \A i \in 1..Len(out) : out[i].k \in TokenKinds \cup {"input-start", "input-end"}
Progress == [][pos' > pos]_lexvars
=============================================================================
