---------------------------- MODULE TraceRender ----------------------------
(* Each line of the file TRACES is a rendered page: [id, c: the context of   *)
(* rendering, els: the tree, and what the implementation returned: html,     *)
(* text, parts: where asked for, the text of each top element and each       *)
(* footnote by itself, and safe: whether it may be within paragraphs; int, ext, inc, meta].  It is accepted when it is what *)
(* the specification determines for that tree.                               *)
EXTENDS RenderHtml

LOCAL Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES d, done
LOCAL R == Traces[d]
LOCAL Same(what, want, got) ==
    IF want = got THEN TRUE
    ELSE PrintT("@@REJECT " \o ToJson([id |-> R.id, why |-> what, want |-> want, got |-> got]))
Accept(h) ==
    /\ Same("html", h.out, R.html)
    /\ Same("text", TextOf(R.c, R.els), R.text)
    /\ R.parts.some => Same("parts", Map(LAMBDA e : TextOf(R.c, <<e>>), R.els) \o Map(LAMBDA f : TextOf(R.c, f), R.c.fns), R.parts.v)
    /\ R.parts.some => Same("safe", Map(SafeNode, R.els), R.safe)
    /\ Same("int", h.int, R.int) /\ Same("ext", h.ext, R.ext) /\ Same("inc", <<>>, R.inc)
    /\ Same("meta", MetaOf(R.c), R.meta)
TInit == d \in 1..Len(Traces) /\ done = FALSE
TNext == ~done /\ done' = TRUE /\ UNCHANGED d /\ Accept(HtmlOf(R.c, R.els))
=============================================================================
