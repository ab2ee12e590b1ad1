----------------------------- MODULE MC_Runner -----------------------------
(* Every accepted pipeline of a few containers, compiled and executed: all   *)
(* schedules, all outcomes.                                                  *)
EXTENDS Runner, Compile, Shapes, Json
CONSTANTS MaxS, MaxV, Kinds, MaxDeps
VARIABLE need
vars == <<need, plan, st, err>>
Kind(k) ==
  CASE k = "plain" -> <<>>
    [] k = "failure" -> <<e("when", m1("status", str("failure")))>>
    [] k = "always" -> <<e("when", m1("status", strs(<<"success", "failure">>)))>>
    [] k = "never" -> <<e("when", m1("event", str("nope")))>>
    [] k = "detached" -> <<e("detach", bool(TRUE))>>
    [] k = "ignored" -> <<e("failure", str("ignore"))>>
Nm == <<"a", "b", "c", "d">>
Skip == [branch |-> "", cron |-> "", event |-> "push", instance |-> "", ref |-> "", repo |-> "", target |-> "", action |-> ""]
Withskip == [creds |-> "", usedind |-> FALSE, dind |-> <<>>, host |-> "", hostmount |-> FALSE, skip |-> Skip]
DepsOf(n) == {<<>>} \cup {q \in UNION {[1..k -> {Nm[i] : i \in 1..n} \cup {"clone", "zz"}] : k \in 1..MaxDeps} : Distinct(q)}
Boxes(n) == {map(<<e("name", str(Nm[n])), e("image", str("i"))>> \o Kind(k) \o (IF d = <<>> THEN <<>> ELSE <<e("depends_on", strs(d))>>)) : k \in Kinds, d \in DepsOf(n)}
DocOf(c, sv, q) == map(<<e("kind", str("pipeline")), e("clone", m1("disable", bool(c))), e("services", seq(sv)), e("steps", seq(q))>>)
\* grown like this: the clone, then steps, then services, then the run
VARIABLES doc, phase
allvars == <<vars, doc, phase>>
Init == /\ \E c \in BOOLEAN : doc = [c |-> c, sv |-> <<>>, q |-> <<>>]
        /\ phase = "grow" /\ need = <<>> /\ RInit(<<>>)
Grow == /\ phase = "grow" /\ UNCHANGED <<need, plan, st, err, phase>>
        /\ LET n == Len(doc.sv) + Len(doc.q) + 1 IN
           \/ Len(doc.q) < MaxS /\ doc.sv = <<>> /\ \E b \in Boxes(n) : doc' = [doc EXCEPT !.q = Append(@, b)]
           \/ Len(doc.sv) < MaxV /\ \E b \in Boxes(n) : doc' = [doc EXCEPT !.sv = Append(@, b)]
Blank == [c |-> FALSE, sv |-> <<>>, q |-> <<>>]
Go == /\ phase = "grow" /\ phase' = "run" /\ doc' = Blank
      /\ LET d == DocOf(doc.c, doc.sv, doc.q) p == TLCEval(Pipeline(d)) IN
         /\ AcceptTrusted(p)
         /\ need' = Need(p)
         /\ plan' = TLCEval(MapSeq(Plan(p, Withskip).steps, LAMBDA s : [name |-> s.name, depends_on |-> s.depends_on, run_policy |-> s.run_policy, detach |-> s.detach, ignore_err |-> s.ignore_err]))
         /\ PrintT(ToJson([doc |-> d]))
      /\ st' = [i \in 1..Len(plan') |-> "wait"] /\ err' = "none"
Run == phase = "run" /\ UNCHANGED <<need, doc, phase>> /\ RNext
Next == Grow \/ Go \/ Run
Spec == Init /\ [][Next]_allvars /\ WF_allvars(Run)
Sound == phase = "run" => Faults(need) = {}
\* the plan of an accepted pipeline is a graph that can be run
Fit == phase = "run" => Runnable(plan) /\ Distinct(MapSeq(plan, LAMBDA s : s.name))
\* every run comes to its end
Ends == (phase = "run") ~> AllOver
\* steps for failures run after failures only, and others not after one
Policy == [][\A i \in 1..N_ : phase = "run" /\ st[i] = "wait" /\ st'[i] \in {"run", "done"} =>
              (plan[i].run_policy = "on-failure" => err = "fail") /\ (plan[i].run_policy = "on-success" => err = "none") /\ plan[i].run_policy # "never"]_allvars
=============================================================================
