----------------------------- MODULE Transform -----------------------------
(***************************************************************************)
(* Transforms of a plan (yaml/compiler/transform), one operator each.       *)
(***************************************************************************)
EXTENDS Compile

OnSteps(s, Op(_)) == [s EXCEPT !.steps = MapSeq(@, Op)]
AddEnv(s, m) == OnSteps(s, LAMBDA x : [x EXCEPT !.envs = Over(@, m)])

Disable(s, P(_)) == [s EXCEPT !.steps = [i \in 1..Len(@) |-> IF P(i) THEN [@[i] EXCEPT !.run_policy = "never"] ELSE @[i]]]
\* the steps a filter disables
IncludeOff(names, s) == IF names = <<>> THEN {} ELSE {i \in 1..Len(s.steps) : s.steps[i].name # "clone" /\ s.steps[i].name \notin Elems(names)}
ExcludeOff(names, s) == {i \in 1..Len(s.steps) : s.steps[i].name # "clone" /\ s.steps[i].name \in Elems(names)}
ResumeOff(name, s) ==
  IF name = "" THEN {}
  ELSE {i \in 1..Len(s.steps) : s.steps[i].name # "clone" /\ \A j \in 1..i : s.steps[j].name # name}
FilterOff(t, s) == CASE t.F = "include" -> IncludeOff(t.Names, s) [] t.F = "exclude" -> ExcludeOff(t.Names, s) [] t.F = "resume" -> ResumeOff(t.Name, s)
IsFilter(t) == t.F \in {"include", "exclude", "resume"}

Limits(s, mem, cpu) ==
  IF mem = 0 /\ cpu = 0 THEN s
  ELSE OnSteps(s, LAMBDA x : [x EXCEPT !.resources = [set |-> TRUE, requests |-> @.requests,
                                  limits |-> [set |-> TRUE, cpu |-> cpu, memory |-> Norm(mem, 0)]]])
NetrcEnv(m) == [k \in {"CI_NETRC_MACHINE", "CI_NETRC_USERNAME", "CI_NETRC_PASSWORD", "DRONE_NETRC_MACHINE", "DRONE_NETRC_USERNAME", "DRONE_NETRC_PASSWORD"} |->
                  IF HasSuffix(k, "MACHINE") THEN m.machine ELSE IF HasSuffix(k, "USERNAME") THEN m.username ELSE m.password]
\* a volume attached from host path h at container path c: named after h
Attach(s, h, c) ==
  LET s1 == [s EXCEPT !.volumes = Append(@, [name |-> "@" \o h, labels |-> Empty, temp |-> NoTemp, host |-> [set |-> TRUE, path |-> h]])] IN
  OnSteps(s1, LAMBDA x : [x EXCEPT !.volumes = Append(@, [name |-> "@" \o h, path |-> c])])
RECURSIVE AttachAll(_, _, _)
AttachAll(s, m, K) == IF K = {} THEN s ELSE LET k == CHOOSE k \in K : TRUE IN AttachAll(Attach(s, k, m[k]), m, K \ {k})
\* malformed pairs are ignored; the last pair of a host path counts
Pairs(l) == LET I == {i \in 1..Len(l) : Len(Split(l[i], ":")) = 2} IN
            [h \in {Split(l[i], ":")[1] : i \in I} |-> Split(l[Max({i \in I : Split(l[i], ":")[1] = h})], ":")[2]]
ProxyEnv(e) ==
  LET val(n) == IF Has(e, Upper(n)) /\ e[Upper(n)] # "" THEN e[Upper(n)] ELSE IF Has(e, n) THEN e[n] ELSE ""
      N == {n \in {"no_proxy", "http_proxy", "https_proxy"} : val(n) # ""} IN
  [k \in N \cup {Upper(n) : n \in N} |-> val(Lower(k))]
LabelAll(s, m) ==
  LET s1 == [s EXCEPT !.labels = Over(@, m), !.volumes = MapSeq(@, LAMBDA v : [v EXCEPT !.labels = Over(@, m)])] IN
  OnSteps(s1, LAMBDA x : [x EXCEPT !.labels = Over(@, m)])
Needed(s) == {x.name : x \in UNION {s.steps[i].secrets : i \in {i \in 1..Len(s.steps) : s.steps[i].run_policy # "never"}}}
SeqOfSet(S) == LET f == CHOOSE f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : f[a] = f[b] => a = b IN f
AddSecrets(s, S) == [s EXCEPT !.secrets = @ \o SetToSeq(S)]
Resolve(s, have) == AddSecrets(s, {[name |-> n, data |-> "value-of-" \o n] : n \in Needed(s) \cap Elems(have)})
AuthsOf(l) == MapSeq(l, LAMBDA a : [address |-> a.Address, username |-> a.Username, password |-> a.Password])

RECURSIVE ApplyAll(_, _), Apply(_, _)
Apply(t, s) ==
  CASE IsFilter(t) -> LET off == FilterOff(t, s) IN Disable(s, LAMBDA i : i \in off)
    [] t.F = "environ" -> AddEnv(s, t.Map)
    [] t.F = "labels" -> LabelAll(s, t.Map)
    [] t.F = "limits" -> Limits(s, t.Mem, t.CPU)
    [] t.F = "netrc" -> IF t.Map.username = "" \/ t.Map.password = "" THEN s ELSE AddEnv(s, NetrcEnv(t.Map))
    [] t.F = "networks" -> OnSteps(s, LAMBDA x : [x EXCEPT !.networks = @ \o t.List])
    [] t.F = "volumes" -> AttachAll(s, t.Map, DOMAIN t.Map)
    [] t.F = "volumeslice" -> AttachAll(s, Pairs(t.List), DOMAIN Pairs(t.List))
    [] t.F = "secrets" -> AddSecrets(s, {[name |-> n, data |-> t.Map[n]] : n \in DOMAIN t.Map})
    [] t.F = "secretfunc" -> Resolve(s, t.Have)
    [] t.F \in {"auths", "authsfunc"} -> [s EXCEPT !.auths = @ \o AuthsOf(t.Auths)]
    [] t.F = "proxy" -> AddEnv(s, ProxyEnv(t.Env))
    [] t.F = "combine" -> ApplyAll(t.Subs, s)
ApplyAll(ts, s) == IF ts = <<>> THEN s ELSE ApplyAll(Tail(ts), Apply(Head(ts), s))
\* the secrets asked for, transform by transform
RECURSIVE Flatten(_), AskedAll(_, _), Blocks(_, _)
Flatten(ts) == IF ts = <<>> THEN <<>> ELSE (IF Head(ts).F = "combine" THEN Flatten(Head(ts).Subs) ELSE <<Head(ts)>>) \o Flatten(Tail(ts))
Asked(t, s) == IF t.F = "secretfunc" THEN Needed(s) ELSE {}
AskedAll(ts, s) == IF ts = <<>> THEN <<>> ELSE <<Asked(Head(ts), s)>> \o AskedAll(Tail(ts), Apply(Head(ts), s))
\* a list of calls made of one block per set, each element once, in any order
Blocks(calls, sets) ==
  IF sets = <<>> THEN calls = <<>>
  ELSE LET n == Cardinality(Head(sets)) IN
       n <= Len(calls) /\ Elems(SubSeq(calls, 1, n)) = Head(sets) /\ Blocks(From(calls, n + 1), Tail(sets))
=============================================================================
