------------------------------ MODULE MC_Apply ------------------------------
(* Transforms built once, applied to the plans of two pipelines in every      *)
(* order: filters only ever disable, never the clone, and keep nothing from   *)
(* one plan to the next; every other transform changes its own fields of      *)
(* every step and nothing else.                                               *)
EXTENDS Transform, Shapes, Json
CONSTANTS MaxH, Filters
VARIABLES plans, hist
vars == <<plans, hist>>

C(n, q) == map(<<e("name", str(n)), e("image", str("i"))>> \o q)
OnFailure == <<e("when", m1("status", str("failure")))>>
Sec(s, v) == <<e("environment", m1(v, m1("from_secret", str(s))))>>
Pipe(cl, sv, st, q) == map(<<e("kind", str("pipeline"))>> \o (IF cl THEN <<>> ELSE <<e("clone", m1("disable", bool(TRUE)))>>) \o q \o <<e("services", seq(sv)), e("steps", seq(st))>>)
Docs_ == <<Pipe(TRUE, <<C("db", <<>>)>>, <<C("build", Sec("token", "T")), C("test", <<>>), C("notify", OnFailure \o Sec("pass", "P"))>>, <<e("volumes", seq(<<m2("name", str("v"), "temp", map(<<>>))>>))>>),
           Pipe(FALSE, <<>>, <<C("test", Sec("token", "X")), C("test", Sec("pass", "Y")), C("clone", <<>>), C("build", <<e("environment", m1("A", str("mine"))), e("resources", m1("requests", m1("memory", int(1024))))>>)>>, <<>>)>>
O == [creds |-> "", usedind |-> FALSE, dind |-> <<>>, host |-> "", hostmount |-> FALSE]
F1 == {[F |-> "include", Names |-> q] : q \in {<<>>, <<"test">>, <<"build", "clone", "test">>, <<"">>}}
F2 == {[F |-> "exclude", Names |-> q] : q \in {<<>>, <<"test">>, <<"clone", "db">>, <<"build", "nope">>}}
F3 == {[F |-> "resume", Name |-> n] : n \in {"", "test", "build", "nope", "clone"}}
T_ == {[F |-> "environ", Map |-> [A |-> "1", B |-> ""]], [F |-> "labels", Map |-> [l |-> "x"]], [F |-> "limits", Mem |-> 1024, CPU |-> 0], [F |-> "limits", Mem |-> 0, CPU |-> 500], [F |-> "limits", Mem |-> 0, CPU |-> 0],
       [F |-> "netrc", Map |-> [machine |-> "m", username |-> "u", password |-> "p"]], [F |-> "netrc", Map |-> [machine |-> "m", username |-> "", password |-> "p"]],
       [F |-> "networks", List |-> <<"n1">>], [F |-> "networks", List |-> <<"n2", "n3">>], [F |-> "volumes", Map |-> ("/h" :> "/c")], [F |-> "volumeslice", List |-> <<"/k:/d", "bad">>],
       [F |-> "secrets", Map |-> [s |-> "v"]], [F |-> "secretfunc", Have |-> <<"token">>], [F |-> "secretfunc", Have |-> <<"pass", "token">>],
       [F |-> "auths", Auths |-> <<[Address |-> "docker.io", Username |-> "u", Password |-> "p"]>>], [F |-> "authsfunc", Auths |-> <<[Address |-> "gcr.io", Username |-> "u", Password |-> "q"]>>],
       [F |-> "proxy", Env |-> [http_proxy |-> "http://p"]],
       [F |-> "combine", Subs |-> <<>>], [F |-> "combine", Subs |-> <<[F |-> "exclude", Names |-> <<"test">>], [F |-> "environ", Map |-> [A |-> "2"]], [F |-> "secretfunc", Have |-> <<"pass">>]>>],
       [F |-> "combine", Subs |-> <<[F |-> "resume", Name |-> "test"], [F |-> "include", Names |-> <<"test", "build">>]>>]}
Fs == F1 \cup F2 \cup F3
Ts == IF Filters THEN Fs ELSE T_ \cup {[F |-> "exclude", Names |-> <<"test">>]}
Plain_ == TLCEval([n \in 1..2 |-> Plan(Pipeline(Docs_[n]), O)])
Init == plans = Plain_ /\ hist = <<>>
Next == /\ Len(hist) < MaxH
        /\ \E t \in Ts, s \in 1..2 : /\ hist' = Append(hist, <<t, s>>)
                                     /\ plans' = [plans EXCEPT ![s] = TLCEval(Apply(t, @))]
Spec == Init /\ [][Next]_vars
Policies(r) == MapSeq(r.steps, LAMBDA s : s.run_policy)
Drop(r) == [r EXCEPT !.steps = MapSeq(@, LAMBDA s : [s EXCEPT !.run_policy = ""])]
\* whatever was filtered before, in whatever order
OffOf(n, t) == FilterOff(t, Plain_[n])
FiltersOnlyDisable == Filters => \A n \in 1..2 :
  LET off == UNION {IF hist[k][2] = n THEN OffOf(n, hist[k][1]) ELSE {} : k \in 1..Len(hist)} IN
  /\ \A i \in 1..Len(plans[n].steps) : plans[n].steps[i].run_policy = (IF i \in off THEN "never" ELSE Plain_[n].steps[i].run_policy)
  /\ \A i \in off : Plain_[n].steps[i].name # "clone"
  /\ Drop(plans[n]) = Drop(Plain_[n])
Idempotent == \A f \in Fs : \A n \in 1..2 : Apply(f, Apply(f, plans[n])) = Apply(f, plans[n])
\* what a transform may touch
Own(t) ==
  CASE t.F \in {"environ", "netrc", "proxy"} -> {"envs"} [] t.F = "labels" -> {"labels"} [] t.F = "limits" -> {"resources"} [] t.F = "networks" -> {"networks"}
    [] t.F \in {"volumes", "volumeslice"} -> {"volumes"} [] t.F \in {"include", "exclude", "resume"} -> {"run_policy"} [] t.F = "combine" -> {"envs", "run_policy"} [] OTHER -> {}
OwnPlan(t) == CASE t.F = "labels" -> {"labels", "volumes", "steps"} [] t.F \in {"volumes", "volumeslice"} -> {"volumes", "steps"} [] t.F \in {"secrets", "secretfunc"} -> {"secrets"}
                [] t.F \in {"auths", "authsfunc"} -> {"auths"} [] t.F = "combine" -> {"steps", "secrets"} [] OTHER -> {"steps"}
Frame == \A t \in Ts, n \in 1..2 : LET a == plans[n] b == Apply(t, a) IN
  /\ DOMAIN a = DOMAIN b /\ Len(a.steps) = Len(b.steps)
  /\ \A k \in DOMAIN a \ OwnPlan(t) : a[k] = b[k]
  /\ \A i \in 1..Len(a.steps) : \A k \in DOMAIN a.steps[i] \ Own(t) : a.steps[i][k] = b.steps[i][k]
  \* and every step alike
  /\ t.F \in {"environ", "netrc", "proxy", "networks", "volumes", "volumeslice"} => \A i, j \in 1..Len(a.steps) : (a.steps[i] = b.steps[i]) = (a.steps[j] = b.steps[j]) \/ t.F \in {"environ", "netrc", "proxy"}
\* a secret is asked for exactly when a step that may run wants it
From2(q, n) == SubSeq(q, n + 1, Len(q))
AskOnly == \A n \in 1..2 : LET r == Apply([F |-> "secretfunc", Have |-> <<"token", "pass">>], plans[n]) IN
  \A x \in {"token", "pass"} : (x \in {s.name : s \in Elems(From2(r.secrets, Len(plans[n].secrets)))}) <=> \E i \in 1..Len(r.steps) : r.steps[i].run_policy # "never" /\ \E s \in r.steps[i].secrets : s.name = x
Texts == hist = <<>> => PrintT(ToJson([docs |-> Docs_]))
Emit == Len(hist) = MaxH => PrintT(ToJson([hist |-> hist]))
=============================================================================
