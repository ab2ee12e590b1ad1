------------------------------- MODULE JCond -------------------------------
(* Observed answers of conditions and skip functions against Glob.tla.        *)
EXTENDS Glob, Resource
V04(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE LET k == [include |-> c.include, exclude |-> c.exclude] IN
       UNION {LET v == c.values[i] o == c.o.res[i] inc == Includes(k, v) exc == Excludes(k, v) IN
              Label(o.match = (~exc /\ (inc \/ k.include = <<>>)), "match") \cup Label(o.includes = inc, "includes")
              \cup Label(o.excludes = exc, "excludes") : i \in 1..Len(c.values)}

\* a pipeline and a list of builds: which containers are skipped, and the policy in the plan
LiveC(q) == SelectSeq(q, LAMBDA x : ~x.nil)
V05(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN {"rejected"}
  ELSE LET p == Docs(c.docs)[1]
           q == LiveC(p.services) \o LiveC(p.steps)
           off == IF p.clone.disable THEN 0 ELSE 1 IN
       UNION {LET r == c.o.res[i] b == c.data[i] IN
              Label(Len(r.skip) = Len(q) /\ Len(r.policy) = Len(q) + off, "count")
              \cup (IF Len(r.skip) = Len(q) /\ Len(r.policy) = Len(q) + off
                    THEN UNION {Label(r.skip[j] = SkipStep(q[j].when, b), "skip")
                                \cup Label(r.policy[j + off].policy = (IF SkipStep(q[j].when, b) THEN "never" ELSE StatusPolicy(q[j].when)), "run_policy")
                                \cup Label(r.policy[j + off].ignore = (Lower(q[j].failure) = "ignore"), "ignore_err") : j \in 1..Len(q)}
                         \cup (IF off = 1 THEN Label(r.policy[1].name = "clone" /\ r.policy[1].policy = "on-success" /\ ~r.policy[1].ignore, "clone") ELSE {})
                    ELSE {}) : i \in 1..Len(c.data)}
=============================================================================
