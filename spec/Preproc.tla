------------------------------ MODULE Preproc ------------------------------
(* The preprocessor: an ordered list of substitutions, one per step.         *)
EXTENDS Chars

LOCAL LineStart(t, p) == p = 1 \/ t[p - 1] = LF
LOCAL LineEnd(t, p) == p = Len(t) + 1 \/ t[p] = LF   \* $ before position p

(* Replace t[a..b-1] by r. *)
Splice(t, a, b, r) == SubSeq(t, 1, a - 1) \o r \o From(t, b)

(* A substitution is a search Match(t, from) giving <<>> or                  *)
(* <<[a |-> first, b |-> end, r |-> replacement]>>; the search goes on after  *)
(* the replacement.                                                          *)
LOCAL SubstStep(s, Match(_, _)) ==
    IF s.done THEN s
    ELSE LET m == Match(s.t, s.from)
         IN IF m = <<>> THEN [s EXCEPT !.done = TRUE]
            ELSE [t |-> Splice(s.t, m[1].a, m[1].b, m[1].r),
                  from |-> m[1].a + Len(m[1].r), done |-> FALSE]
Subst(t, Match(_, _)) ==
    FoldLeft(LAMBDA s, k : SubstStep(s, Match), [t |-> t, from |-> 1, done |-> FALSE],
             [k \in 1..(Len(t) + 1) |-> k]).t

LOCAL Hit(a, b, r) == << [a |-> a, b |-> b, r |-> r] >>

(* Each character by a function of it. *)
LOCAL MapChars(t, F(_)) == FoldLeft(LAMBDA acc, c : acc \o F(c), <<>>, t)

-----------------------------------------------------------------------------
(* Whitespace *)

Newlines(t) ==      \* CR LF and CR become LF
    FoldLeft(LAMBDA acc, i :
        IF t[i] = CR THEN Append(acc, LF)
        ELSE IF t[i] = LF /\ i > 1 /\ t[i - 1] = CR THEN acc
        ELSE Append(acc, t[i]), <<>>, [i \in 1..Len(t) |-> i])

NonStandard == {160, 8199}
LeadingSpaces(t) == \* a run of no-break and figure spaces that leads a line
    FoldLeft(LAMBDA acc, i :
        IF t[i] \notin NonStandard THEN [out |-> Append(acc.out, t[i]), lead |-> t[i] = LF]
        ELSE IF acc.lead THEN [out |-> Append(acc.out, SP), lead |-> TRUE]
        ELSE [out |-> Append(acc.out, t[i]), lead |-> FALSE],
        [out |-> <<>>, lead |-> TRUE], [i \in 1..Len(t) |-> i]).out

(* The longest run of whitespace, newlines included, that starts a line and  *)
(* ends at the end of one.                                                   *)
LOCAL BlankMatch(t, from) ==
    LET end(p) == LET r == Skip(t, p, LAMBDA c : ~IsSpace(c))
                      E == {e \in (p + 1)..r : LineEnd(t, e)}
                  IN IF E = {} THEN 0 ELSE Greatest(E)
        P == {p \in from..Len(t) : LineStart(t, p) /\ IsSpace(t[p])}
        Q == {p \in P : end(p) > 0}
    IN IF Q = {} THEN <<>> ELSE LET p == Least(Q) IN Hit(p, end(p), <<>>)
BlankLines(t) == Subst(t, BlankMatch)

LOCAL ConcatMatch(t, from) ==
    LET p == Find(t, from, <<92, LF>>) IN IF p = 0 THEN <<>> ELSE Hit(p, p + 2, <<>>)
ConcatLines(t) == Subst(t, ConcatMatch)

Tabs(t) == MapChars(t, LAMBDA c : IF c = TAB THEN <<SP, SP, SP, SP>> ELSE <<c>>)
Nulls(t) == MapChars(t, LAMBDA c : IF c = NUL THEN <<SP>> ELSE <<c>>)
StripLeading(t) == TrimStartBy(t, LAMBDA c : c = LF)
StripTrailing(t) == TrimEndBy(t, LAMBDA c : c = LF)

-----------------------------------------------------------------------------
(* Typography *)

(* An opening mark and the nearest closing one on the same line. *)
LOCAL Pair(t, from, open, close, l, r) ==
    LET endOf(p) ==
            LET q == Find(t, p + Len(open), close)
            IN IF q = 0 \/ \E k \in (p + Len(open))..(q - 1) : t[k] = LF THEN 0 ELSE q
        P == {p \in from..Len(t) : At(t, p, open) /\ endOf(p) > 0}
    IN IF P = {} THEN <<>>
       ELSE LET p == Least(P)
                q == endOf(p)
            IN Hit(p, q + Len(close), <<l>> \o SubSeq(t, p + Len(open), q - 1) \o <<r>>)

LOCAL DoubleMatch(t, from) == Pair(t, from, Lit("``"), Lit("''"), 8220, 8221)
LOCAL LowMatch(t, from) == Pair(t, from, Lit(",,"), Lit("''"), 8222, 8221)
LOCAL SingleMatch(t, from) == Pair(t, from, Lit("`"), Lit("'"), 8216, 8217)

(* Three dots, close or spaced, with no dot before or after; the character   *)
(* before must not have been consumed by an earlier replacement.             *)
LOCAL Dots(t, p) ==
    LET n == IF At(t, p, Lit("...")) THEN 3 ELSE IF At(t, p, Lit(". . .")) THEN 5 ELSE 0
    IN IF n > 0 /\ (p + n > Len(t) \/ t[p + n] # Chr(".")) THEN n ELSE 0
LOCAL EllipsisMatch(t, from) ==
    LET P == {p \in from..Len(t) : /\ Dots(t, p) > 0
                                   /\ \/ p = 1
                                      \/ p > from /\ t[p - 1] # Chr(".")}
    IN IF P = {} THEN <<>> ELSE LET p == Least(P) IN Hit(p, p + Dots(t, p), <<8230>>)

DoubleQuotes(t) == Subst(t, DoubleMatch)
LowQuotes(t) == Subst(t, LowMatch)
SingleQuotes(t) == Subst(t, SingleMatch)
Ellipses(t) == Subst(t, EllipsisMatch)

-----------------------------------------------------------------------------
Phases == << "newlines", "leading-spaces", "blank-lines", "concat", "tabs", "nulls",
             "strip-leading", "strip-trailing",
             "double-quotes", "low-quotes", "single-quotes", "ellipses" >>
WhitespacePhases == 8

Apply(p, t) ==
    CASE p = 1 -> Newlines(t)      [] p = 2 -> LeadingSpaces(t) [] p = 3 -> BlankLines(t)
      [] p = 4 -> ConcatLines(t)   [] p = 5 -> Tabs(t)          [] p = 6 -> Nulls(t)
      [] p = 7 -> StripLeading(t)  [] p = 8 -> StripTrailing(t)
      [] p = 9 -> DoubleQuotes(t)  [] p = 10 -> LowQuotes(t)
      [] p = 11 -> SingleQuotes(t) [] p = 12 -> Ellipses(t)

Whitespaced(t) == FoldLeft(LAMBDA x, p : Apply(p, x), t, [p \in 1..8 |-> p])
Typographed(t) == FoldLeft(LAMBDA x, p : Apply(p + 8, x), t, [p \in 1..4 |-> p])
Preprocessed(t) == Typographed(Whitespaced(t))

-----------------------------------------------------------------------------
VARIABLES source, cur, phase
prevars == <<source, cur, phase>>

PreInit(t) == source = t /\ cur = t /\ phase = 1
PreStep == /\ phase <= Len(Phases)
           /\ cur' = Apply(phase, cur)
           /\ phase' = phase + 1
           /\ UNCHANGED source

(* What has been established by the time each phase is over. *)
LOCAL Has(c) == \E i \in 1..Len(cur) : cur[i] = c
NoCR == phase > 1 => ~Has(CR)
NoTab == phase > 5 => ~Has(TAB)
NoNul == phase > 6 => ~Has(NUL)
NoLeadingNl == phase > 7 => cur = <<>> \/ cur[1] # LF
NoTrailingNl == phase > 8 => cur = <<>> \/ cur[Len(cur)] # LF
(* Directly after its phase, no run of blank lines is longer than one. *)
NoBlankRun == phase = 4 => ~\E i \in 1..(Len(cur) - 2) : cur[i] = LF /\ cur[i + 1] = LF /\ cur[i + 2] = LF
Plain(t) == SelectSeq(t, LAMBDA c : c \notin WhiteSpace \cup {NUL, 92})
KeepsText == [][phase < 9 => Plain(cur') = Plain(cur)]_prevars
Quotes == {96, 39, 44, 8216, 8217, 8220, 8221, 8222, 46, 32, 8230}
Unquoted(t) == SelectSeq(t, LAMBDA c : c \notin Quotes)
KeepsRest == [][phase >= 9 => Unquoted(cur') = Unquoted(cur)]_prevars
=============================================================================
