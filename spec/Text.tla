-------------------------------- MODULE Text --------------------------------
(* Everything decided from a piece of text alone: URLs, page references,     *)
(* link targets, page names in normal form, interwiki links, attributes,     *)
(* conditions, booleans and quoted strings.                                  *)
EXTENDS Str

(* ---- results that may be absent ---- *)
None == [some |-> FALSE, v |-> ""]
Some(v) == [some |-> TRUE, v |-> v]
OrElse(o, d) == IF o.some THEN o.v ELSE d

(* ---- URLs ---- *)
UrlSchemes == {"blob:", "chrome-extension://", "chrome://", "content://", "dns:", "feed:", "file://", "ftp://",
               "git://", "gopher://", "http://", "https://", "irc6://", "irc://", "ircs://", "mailto:",
               "resource://", "rtmp://", "sftp://"}
IsUrl(s) == \E x \in UrlSchemes : Starts(s, x)

(* uni: what non-ASCII characters, by themselves and with the marks that     *)
(* belong to them, become in normal form ("-" unless they are letters or     *)
(* numbers), and whether they belong to words                                *)
Glyphs(uni, s) == IF DOMAIN uni = {""} THEN Map(LAMBDA i : C(s, i), Idx(s))
                  ELSE FoldS(LAMBDA a, c : IF a # <<>> /\ (a[Len(a)] \o c) \in DOMAIN uni THEN [a EXCEPT ![Len(a)] = @ \o c] ELSE Append(a, c), s, <<>>)
WordC(uni, c) == c \in Alnum \cup {"_", "-"} \/ (c \in DOMAIN uni /\ uni[c].w)
DangerousScheme(uni, s) ==
    LET k == FindC(s, ":") IN
    /\ k > 0
    /\ LET sc == Sub(s, 1, k - 1) IN
       \/ sc = "" \/ (LET g == Glyphs(uni, sc) IN \E i \in 1..Len(g) : ~WordC(uni, g[i]))
       \/ EqCI(sc, "javascript") \/ EqCI(sc, "data")

RECURSIVE Fix(_, _, _)
Fix(s, p, r) == IF HasStr(s, p) THEN Fix(ReplaceStr(s, p, r), p, r) ELSE s
RECURSIVE Fix2(_, _, _, _)
Fix2(s, p, q, r) == IF HasStr(s, p) THEN Fix2(ReplaceStr(s, p, r), p, q, r)
                    ELSE IF HasStr(s, q) THEN Fix2(ReplaceStr(s, q, r), p, q, r) ELSE s

(* Names of pages in normal form *)
Normalize(uni, s0) ==
    LET s1 == Trim(s0)
        s2 == IF Starts(s1, "/") THEN From(s1, 2) ELSE s1
        s3 == FoldLeft(LAMBDA a, c : a \o (IF c \in Uppers THEN LowC(c)
                                           ELSE IF c \in Alnum \cup {"-", ":", "_"} THEN c
                                           ELSE IF c \in DOMAIN uni THEN uni[c].f ELSE "-"), "", Glyphs(uni, s2))
        colons == {i \in 1..Len(s3) : C(s3, i) = ":"}
        last == IF colons = {} THEN 0 ELSE CHOOSE i \in colons : \A j \in colons : j <= i
        s4 == FoldLeft(LAMBDA a, i : a \o (IF C(s3, i) = ":" /\ i < last THEN "-" ELSE C(s3, i)), "", Idx(s3))
        s5 == FoldLeft(LAMBDA a, i : a \o (IF C(s4, i) = "_" /\ i > 1 /\ C(s4, i - 1) # ":" THEN "-" ELSE C(s4, i)), "", Idx(s4))
        s6 == Fix(Fix(TrimIn(s5, {"-"}), "--", "-"), "::", ":")
        s7 == Fix2(Fix2(s6, ":-", "-:", ":"), "_-", "-_", "_")
        s8 == TrimIn(s7, {":"})
    IN IF Starts(s8, "_default:") THEN From(s8, 10) ELSE s8

NormalizeHref(uni, s) ==
    IF IsUrl(s) \/ Starts(s, "#") \/ s = "javascript:;" THEN s
    ELSE IF DangerousScheme(uni, s) THEN "#invalid-url"
    ELSE LET h == FindC(s, "#")
             before == IF h = 0 THEN s ELSE Sub(s, 1, h - 1)
             parts0 == Split(before, "/")
             parts == IF parts0[1] # "" \/ Len(parts0) = 1 THEN <<"">> \o parts0 ELSE parts0
             out == JoinS([parts EXCEPT ![2] = Normalize(uni, parts[2])], "/")
         IN IF h = 0 THEN out ELSE out \o "#" \o From(s, h + 1)

(* ---- page references ---- *)
(* [ok, site (an option), page] *)
PageRefParse(s0) ==
    LET s == Trim(s0)
        bad == [ok |-> FALSE, site |-> None, page |-> ""]
    IN IF s = "" THEN bad
       ELSE IF C(s, 1) # ":" THEN [ok |-> TRUE, site |-> None, page |-> s]
       ELSE LET k == FindFrom(s, ":", 2) IN
            IF k = 0 THEN bad ELSE IF Trim(Sub(s, 2, k - 1)) = "" THEN bad
            ELSE [ok |-> TRUE, site |-> Some(Trim(Sub(s, 2, k - 1))), page |-> Trim(From(s, k + 1))]
PageRefShow(r) == (IF r.site.some THEN ":" \o r.site.v \o ":" ELSE "") \o r.page

(* ---- link targets: [kind |-> "url", url] or [kind |-> "page", site, page] ---- *)
UrlTarget(u) == [kind |-> "url", url |-> u, site |-> None, page |-> ""]
PageTarget(r) == [kind |-> "page", url |-> "", site |-> r.site, page |-> r.page]
IsPlace(s) == IsUrl(s) \/ Starts(s, "#") \/ Starts(s, "/")
BeforeC(s, c) == LET k == FindC(s, c) IN IF k = 0 THEN s ELSE Sub(s, 1, k - 1)
LinkTarget(s) ==
    IF IsPlace(s) THEN UrlTarget(s)
    ELSE LET cut == BeforeC(BeforeC(s, "#"), "/")
             r == PageRefParse(cut)
         IN IF r.ok THEN PageTarget(r) ELSE UrlTarget(cut)
LinkExtra(s) ==
    IF IsPlace(s) THEN None
    ELSE LET h == FindC(s, "#")
             main == IF h = 0 THEN s ELSE Sub(s, 1, h - 1)
             sl == FindC(main, "/")
             path == (IF sl = 0 THEN "" ELSE From(main, sl)) \o (IF h = 0 THEN "" ELSE From(s, h))
         IN IF path = "" THEN None ELSE Some(path)

SiteUrl(uni, site, page) == "https://" \o site \o ".wikijump.com/" \o Normalize(uni, page)
NormalizeLink(uni, t) ==
    IF t.kind = "url" THEN NormalizeHref(uni, t.url)
    ELSE IF t.site.some THEN SiteUrl(uni, t.site.v, t.page)
    ELSE IF DangerousScheme(uni, t.page) THEN "#invalid-url"
    ELSE NormalizeHref(uni, t.page)

(* ---- interwiki ---- *)
DefaultInterwiki ==
    [wikipedia |-> "https://wikipedia.org/wiki/$$", wp |-> "https://wikipedia.org/wiki/$$",
     commons |-> "https://commons.wikimedia.org/wiki/$$", google |-> "https://google.com/search?q=$$",
     duckduckgo |-> "https://duckduckgo.com/?q=$$", ddg |-> "https://duckduckgo.com/?q=$$",
     dictionary |-> "https://dictionary.com/browse/$$", thesaurus |-> "https://thesaurus.com/browse/$$"]
InterwikiBuild(map, s) ==
    LET k == FindC(s, ":") IN
    IF k <= 1 \/ k = Len(s) THEN None
    ELSE LET prefix == Sub(s, 1, k - 1) IN
         IF prefix \notin DOMAIN map THEN None
         ELSE Some(ReplaceC(ReplaceStr(map[prefix], "$$", From(s, k + 1)), " ", "%20"))

(* ---- identifiers, booleans, quoted strings, conditions ---- *)
Isolated(s) == JoinS(Map(LAMBDA x : IF Starts(x, "u-") THEN x ELSE "u-" \o x, SplitWS(s)), " ")
ParseBool(s) ==
    LET x == Lower(Trim(s)) IN
    IF x \in {"true", "t", "1", "yes"} THEN "true"
    ELSE IF x \in {"false", "f", "0", "no"} THEN "false" ELSE "?"

Quote == "\""
Unquote(s) ==
    IF Len(s) < 2 \/ ~Starts(s, Quote) \/ ~Ends(s, Quote) THEN s
    ELSE LET m == Sub(s, 2, Len(s) - 1) IN
         IF ~HasC(m, "\\") THEN m
         ELSE FoldS(LAMBDA a, c :
                      IF a[2] THEN <<a[1] \o (CASE c = "\\" -> "\\" [] c = Quote -> Quote [] c = "'" -> "'"
                                               [] c = "r" -> "\r" [] c = "n" -> "\n" [] c = "t" -> "\t"
                                               [] OTHER -> "\\" \o c), FALSE>>
                      ELSE IF c = "\\" THEN <<a[1], TRUE>> ELSE <<a[1] \o c, FALSE>>, m, <<"", FALSE>>)[1]

(* A condition list holds of a set of values (given as a sequence) *)
CondParse(s) ==
    SelectSeq(Map(LAMBDA x : IF Starts(x, "+") THEN <<"+", From(x, 2)>>
                             ELSE IF Starts(x, "-") THEN <<"-", From(x, 2)>> ELSE <<"", x>>, Split(s, " ")),
              LAMBDA c : c # <<"", "">>)
CondHolds(conds, values) ==
    LET S == {values[i] : i \in 1..Len(values)}
        Cs(k) == {conds[i][2] : i \in {i \in 1..Len(conds) : conds[i][1] = k}}
    IN Cs("+") \subseteq S /\ Cs("-") \cap S = {} /\ (Cs("") = {} \/ Cs("") \cap S # {})

(* A number from 1 to 4294967295 written in decimal: its digits without leading *)
(* zeros, or "" if it is none (TLC's own integers end at 2147483647).            *)
NonZero(s0) ==
    LET s == IF Starts(s0, "+") THEN From(s0, 2) ELSE s0
        d == TrimStartIn(s, {"0"})
        hi == NumOf(Sub(d, 1, 5))
    IN IF s = "" \/ ~AllIn(s, Digits) \/ Len(d) > 10 THEN ""
       ELSE IF Len(d) < 10 \/ hi < 42949 \/ (hi = 42949 /\ NumOf(From(d, 6)) <= 67295) THEN d ELSE ""

(* ---- attributes ---- *)
SafeAttributes ==
    {"accept", "align", "alt", "autocapitalize", "autoplay", "background", "bgcolor", "border", "buffered", "checked",
     "cite", "class", "cols", "colspan", "contenteditable", "controls", "coords", "datetime", "decoding", "default",
     "dir", "dirname", "disabled", "download", "draggable", "for", "form", "headers", "height", "hidden", "high",
     "href", "hreflang", "id", "inputmode", "ismap", "itemprop", "kind", "label", "lang", "list", "loop", "low", "max",
     "maxlength", "min", "minlength", "multiple", "muted", "name", "optimum", "pattern", "placeholder", "poster",
     "preload", "readonly", "required", "reversed", "role", "rows", "rowspan", "scope", "selected", "shape", "size",
     "sizes", "span", "spellcheck", "src", "srclang", "srcset", "start", "step", "style", "tabindex", "target",
     "title", "translate", "type", "usemap", "value", "width", "wrap"}
BooleanAttributes ==
    {"allowfullscreen", "allowpaymentrequest", "async", "autofocus", "autoplay", "checked", "controls", "default",
     "disabled", "formnovalidate", "hidden", "ismap", "itemscope", "loop", "multiple", "muted", "nomodule",
     "novalidate", "open", "playsinline", "readonly", "required", "reversed", "selected", "truespeed"}
UrlAttributes == {"href", "src"}
SafeAttribute(k) ==
    \/ Lower(k) \in SafeAttributes
    \/ (Starts(k, "aria-") \/ Starts(k, "data-")) /\ AllIn(k, Alnum \cup {"-"})

(* arguments (a sequence of <<key, value>>, keys distinct but for case) to   *)
(* attributes (sorted, under their lower-case names)                         *)
Attributes(uni, isolate, args) ==
    LET kept == SelectSeq(args, LAMBDA kv : SafeAttribute(kv[1])
                              /\ ~(Lower(kv[1]) \in BooleanAttributes /\ ParseBool(kv[2]) = "false"))
        val(kv) == LET k == Lower(kv[1])
                       v1 == IF k \in BooleanAttributes /\ ParseBool(kv[2]) = "true" THEN "" ELSE kv[2]
                       v2 == IF k \in UrlAttributes THEN NormalizeHref(uni, v1) ELSE v1
                   IN IF k = "id" /\ isolate THEN Isolated(v2) ELSE v2
    IN SortSeq(Map(LAMBDA kv : <<Lower(kv[1]), val(kv)>>, kept), LAMBDA a, b : LessS(a[1], b[1]))

ArgGet(args, k) == LET M == SelectSeq(args, LAMBDA kv : EqCI(kv[1], k))
                   IN IF M = <<>> THEN None ELSE Some(M[1][2])
SortedArgs(args) == SortSeq(args, LAMBDA a, b : LessS(a[1], b[1]))
ArgDrop(args, k) == SelectSeq(args, LAMBDA kv : ~EqCI(kv[1], k))
ArgPut(args, k, v) ==
    IF \E i \in 1..Len(args) : EqCI(args[i][1], k)
    THEN Map(LAMBDA kv : IF EqCI(kv[1], k) THEN <<kv[1], v>> ELSE kv, args)
    ELSE Append(args, <<k, v>>)
ArgBool(args, k, default) ==   \* "true", "false", or "?" when it is not a boolean
    LET v == ArgGet(args, k) IN IF ~v.some THEN default ELSE ParseBool(v.v)
=============================================================================
