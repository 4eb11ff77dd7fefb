------------------------------ MODULE MCLinks ------------------------------
(* References to pages, targets of links and interwiki links: all strings    *)
(* over a small alphabet up to a length.                                     *)
EXTENDS Text
VARIABLES s, done
NoUni == [x \in {} |-> ""]
Bound == atoi(IOEnv.MAXLEN)
Letters == IF IOEnv.WHAT = "interwiki" THEN {"w", "p", ":", "$", " ", "#"} ELSE {":", "a", " ", "/", "#", "_", "B"}
Map1 == [w |-> "h:$$/$$", p |-> "n q", pw |-> "$$", wp |-> "$$$"]
MCInit == s = "" /\ done = FALSE
Grow == ~done /\ Len(s) < Bound /\ \E x \in Letters : s' = s \o x /\ UNCHANGED done
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED s
        /\ PrintT("@@CASE " \o ToJson(IF IOEnv.WHAT = "interwiki" THEN [s |-> s, r |-> InterwikiBuild(Map1, s)]
                                       ELSE [s |-> s, r |-> PageRefParse(s), shown |-> PageRefShow(PageRefParse(s))]))
MCNext == Grow \/ Emit
(* What a reference is written as reads back as the reference *)
RoundTrip == LET r == PageRefParse(s) IN r.ok => r.page = "" \/ PageRefParse(PageRefShow(r)) = r
(* A target is cut into the page and what follows it *)
Cut == LET t == LinkTarget(s) IN t.kind = "page" /\ ~t.site.some => Trim(s) = Trim(t.page \o TrimEndIn(OrElse(LinkExtra(s), ""), {})) \/ HasStr(s, " /") \/ HasStr(s, " #")
(* Names in normal form stay as they are *)
Normal == LET n == Normalize(NoUni, s) IN
    /\ AllIn(n, (Alnum \ Uppers) \cup {"-", ":", "_"}) /\ ~Starts(n, "-") /\ ~Ends(n, "-") /\ ~HasStr(n, "--") /\ ~HasStr(n, "::")
(* Nothing but an allowed scheme survives as a link *)
Safe == LET h == NormalizeHref(NoUni, s) IN Starts(h, "/") \/ Starts(h, "#") \/ IsUrl(h)
=============================================================================
