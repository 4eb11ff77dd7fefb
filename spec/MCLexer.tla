------------------------------ MODULE MCLexer ------------------------------
(* All texts of length <= MaxLen over one of several small alphabets.  Every *)
(* finished text is printed with its tokens, to be replayed into ftml.       *)
EXTENDS Lexer, TLC, Json, IOUtils

Alphabets == << Lit("[]#*$/a"), Lit("~-<>@!"), Lit("|~<>=*"), Lit("+*#_,^"),
                Lit("{}$a1\"") \o <<92>>, <<LF, CR, SP, TAB, 97, 233>>,
                Lit("\"a") \o <<92, LF, 128512>>, Lit("/:h,(@"), Lit("a@. ") >>
Tiny == IF "TINY" \in DOMAIN IOEnv THEN atoi(IOEnv.TINY) ELSE 0
MaxLen == atoi(IOEnv.MAXLEN)

Heads == {<<>>, Lit("http://"), Lit("ftp://"), Lit("https:/"), Lit("[[[")}
Texts == LET Over(A, n) == UNION {[1..m -> {A[i] : i \in 1..Len(A)}] : m \in 0..n}
         IN UNION {Over(Alphabets[k], IF Len(Alphabets[k]) < 6 THEN MaxLen + 2 ELSE MaxLen) : k \in 1..Len(Alphabets)}
            \cup {h \o x : h \in Heads, x \in Over(Lit("/:|[] s") \o <<LF>>, 3)}
            \cup {<<a, b>> \o c : a \in 32..126, b \in 32..126, c \in {<<>>}}

MCInit == \E t \in Texts : LexInit(t)
Report == LexDone' => PrintT("@@CASE " \o ToJson([text |-> text, out |-> out']))
MCNext == LexNext /\ Report
MCSpec == MCInit /\ [][MCNext]_lexvars
=============================================================================
