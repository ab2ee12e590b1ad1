------------------------------- MODULE JPlan -------------------------------
(* Observed plans: containment, and what transforms do to them.               *)
EXTENDS JCompile, Contain

\* an observed plan as a specified one
AsPlan(a) == [a EXCEPT !.steps = MapSeq(@, LAMBDA s : [s EXCEPT !.secrets = Elems(@)])]

VContain(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN {"rejected"}
  ELSE UNION {LET x == c.o.pipes[i] IN IF x.untrusted THEN Escapes(x.spec, x.res, c.opts) \cup Escapes(x.filtered, x.res, c.opts) ELSE {} : i \in 1..Len(c.o.pipes)}

\* transforms applied in turn: c.hist is a sequence of <<transform, plan>>
Latest(c, n, s) == LET I == {k \in 1..(n - 1) : c.hist[k][2] = s} IN IF I = {} THEN c.o.before[s] ELSE c.o.after[Max(I)].spec
Blank(a) == MapSeq(a.steps, LAMBDA s : Empty)
OneApply(c, n) ==
  LET t == c.transforms[c.hist[n][1]]
      a == c.o.after[n]
      b == TLCEval(AsPlan(Latest(c, n, c.hist[n][2])))
      e == TLCEval(Apply(t, b))
      pre == IF \A k \in 1..Len(Flatten(<<t>>)) : IsFilter(Flatten(<<t>>)[k]) THEN "filter_" ELSE "transform_"
      d == DiffPlan(a.spec, e, Blank(e), Blank(e), TRUE)
           \cup Label(a.others, "other_plan") \cup Label(Blocks(a.calls, AskedAll(Flatten(<<t>>), b)), "asked") IN
  {pre \o l : l \in d}
VApply(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN {"rejected"}
  ELSE UNION {OneApply(c, n) : n \in 1..Len(c.hist)}
=============================================================================
