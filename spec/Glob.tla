------------------------------- MODULE Glob -------------------------------
(***************************************************************************)
(* Shell-style patterns over slash-separated names (yaml/cond.go).          *)
(* A pattern is cut into segments; a segment is read into tokens            *)
(*   lit c | any | star | class neg ranges | alt <<token sequences>>        *)
(* `**` as a whole segment spans zero or more segments (one or more when it *)
(* ends the pattern).  Tokens are matched declaratively; a pattern that     *)
(* cannot be read matches nothing.                                          *)
(***************************************************************************)
EXTENDS Util

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ords == TLCEval([c \in {SubSeq(Ascii, n, n) : n \in 1..Len(Ascii)} |-> CHOOSE n \in 1..Len(Ascii) : SubSeq(Ascii, n, n) = c])
Ord(c) == IF c \in DOMAIN Ords THEN Ords[c] ELSE 0

\* position of the first c in s at or after i that no backslash precedes
RECURSIVE FindPlain(_, _, _)
FindPlain(s, c, i) ==
  IF i > Len(s) THEN 0
  ELSE IF Ch(s, i) = "\\" THEN FindPlain(s, c, i + 2)
  ELSE IF Ch(s, i) = c THEN i ELSE FindPlain(s, c, i + 1)
RECURSIVE SplitPlain(_, _)
SplitPlain(s, c) ==
  LET i == FindPlain(s, c, 1) IN
  IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitPlain(From(s, i + 1), c)

Bad == [ok |-> FALSE, v |-> <<>>]
Good(v) == [ok |-> TRUE, v |-> v]
Then(x, r) == IF r.ok THEN Good(<<x>> \o r.v) ELSE Bad

\* one bound of a range: the character at i, a backslash quoting the next one
Bound(s, i) == IF Ch(s, i) = "\\" THEN (IF i < Len(s) THEN [ok |-> TRUE, c |-> Ch(s, i + 1), n |-> i + 2] ELSE [ok |-> FALSE, c |-> "", n |-> 0])
               ELSE IF Ch(s, i) = "-" THEN [ok |-> FALSE, c |-> "", n |-> 0]
               ELSE [ok |-> TRUE, c |-> Ch(s, i), n |-> i + 1]
RECURSIVE Ranges(_, _)
Ranges(s, i) ==
  IF i > Len(s) THEN Good(<<>>)
  ELSE LET a == Bound(s, i) IN
       IF ~a.ok THEN Bad
       ELSE IF a.n <= Len(s) /\ Ch(s, a.n) = "-"
       THEN IF a.n = Len(s) THEN Bad
            ELSE LET b == Bound(s, a.n + 1) IN
                 IF b.ok THEN Then([lo |-> a.c, hi |-> b.c], Ranges(s, b.n)) ELSE Bad
       ELSE Then([lo |-> a.c, hi |-> a.c], Ranges(s, a.n))
ClassTok(body) ==
  LET neg == Ch(body, 1) = "^"
      r == Ranges(body, IF neg THEN 2 ELSE 1) IN
  IF r.ok THEN Good(<<[y |-> "class", neg |-> neg, r |-> r.v]>>) ELSE Bad

RECURSIVE Toks(_, _)
Toks(s, i) ==
  IF i > Len(s) THEN Good(<<>>)
  ELSE LET c == Ch(s, i) IN
  CASE c = "\\" -> IF i = Len(s) THEN Bad ELSE Then([y |-> "lit", c |-> Ch(s, i + 1)], Toks(s, i + 2))
    [] c = "*" -> Then([y |-> "star"], Toks(s, i + 1))
    [] c = "?" -> Then([y |-> "any"], Toks(s, i + 1))
    [] c = "[" -> LET e == FindPlain(s, "]", i + 1) IN
                  IF e = 0 \/ e = i + 1 THEN Bad
                  ELSE LET k == ClassTok(SubSeq(s, i + 1, e - 1)) IN
                       IF k.ok THEN Then(k.v[1], Toks(s, e + 1)) ELSE Bad
    [] c = "{" -> LET e == FindPlain(s, "}", i + 1) IN
                  IF e = 0 THEN Bad
                  ELSE LET os == SplitPlain(SubSeq(s, i + 1, e - 1), ",")
                           ts == [j \in 1..Len(os) |-> Toks(os[j], 1)] IN
                       IF \E j \in 1..Len(ts) : ~ts[j].ok THEN Bad
                       ELSE Then([y |-> "alt", o |-> [j \in 1..Len(ts) |-> ts[j].v]], Toks(s, e + 1))
    [] OTHER -> Then([y |-> "lit", c |-> c], Toks(s, i + 1))

InClass(t, c) == t.neg # (\E j \in 1..Len(t.r) : Ord(t.r[j].lo) <= Ord(c) /\ Ord(c) <= Ord(t.r[j].hi))

RECURSIVE MatchToks(_, _, _)
MatchToks(q, s, j) ==
  IF q = <<>> THEN j > Len(s)
  ELSE LET t == Head(q) r == Tail(q) IN
  CASE t.y = "star" -> \E k \in j..(Len(s) + 1) : MatchToks(r, s, k)
    [] t.y = "alt" -> \E o \in 1..Len(t.o) : MatchToks(t.o[o] \o r, s, j)
    [] j > Len(s) -> FALSE
    [] t.y = "any" -> MatchToks(r, s, j + 1)
    [] t.y = "class" -> InClass(t, Ch(s, j)) /\ MatchToks(r, s, j + 1)
    [] OTHER -> t.c = Ch(s, j) /\ MatchToks(r, s, j + 1)

SegMatch(p, s) == LET t == Toks(p, 1) IN t.ok /\ MatchToks(t.v, s, 1)

RECURSIVE SegsMatch(_, _)
SegsMatch(ps, ns) ==
  IF ps = <<>> THEN ns = <<>>
  ELSE IF Head(ps) = "**"
  THEN IF Len(ps) = 1 THEN Len(ns) >= 1
       ELSE \E k \in 0..Len(ns) : SegsMatch(Tail(ps), SubSeq(ns, k + 1, Len(ns)))
  ELSE ns # <<>> /\ SegMatch(Head(ps), Head(ns)) /\ SegsMatch(Tail(ps), Tail(ns))

Glob(p, s) == SegsMatch(SplitPlain(p, "/"), Split(s, "/"))

\* ---- conditions ----
Includes(c, v) == \E i \in 1..Len(c.include) : Glob(c.include[i], v)
Excludes(c, v) == \E i \in 1..Len(c.exclude) : Glob(c.exclude[i], v)
Match(c, v) == ~Excludes(c, v) /\ (Includes(c, v) \/ c.include = <<>>)

\* ---- when a step runs (yaml/compiler/skip.go, toRunPolicy) ----
\* a build: branch, cron, event, instance, ref, repo, target, action
BuildAttrs == {"branch", "cron", "event", "instance", "ref", "repo", "target", "action"}
SkipStep(when, b) == \E k \in BuildAttrs : ~Match(when[k], b[k])
RunOnSuccess(when) == Match(when.status, "success")
RunOnFailure(when) == when.status.include # <<>> /\ Match(when.status, "failure")
PolicyOf(onS, onF) == IF onS /\ onF THEN "always" ELSE IF onS THEN "on-success" ELSE IF onF THEN "on-failure" ELSE "never"
StatusPolicy(when) == PolicyOf(RunOnSuccess(when), RunOnFailure(when))
=============================================================================
