------------------------------ MODULE MC_Legacy ------------------------------
(* Legacy files and what their pipelines do: which builds trigger them, which *)
(* steps every combination of the matrix has, which host paths are mounted.   *)
EXTENDS Convert, Trees, Json
CONSTANTS MaxSteps
Cont == {map(<<e("image", str("golang:${A}"))>>),
         map(<<e("image", str("i")), e("volumes", strs(<<"/tmp:/x">>)), e("when", m1("matrix", m1("A", str("1.10"))))>>),
         map(<<e("image", str("i")), e("volumes", strs(<<"/tmp:/y", "/a:/b:ro">>)), e("commands", strs(<<"echo x${A}y ${B}z">>)), e("when", m2("event", strs(<<"tag", "deployment">>), "matrix", m2("A", str("1.10"), "B", str("x"))))>>),
         map(<<e("image", str("p")), e("repo", str("r-${A}")), e("environment", strs(<<"FOO=bar${B}">>)), e("secrets", strs(<<"token">>)), e("when", m2("branch", str("master"), "event", str("deploy")))>>),
         map(<<e("image", str("i")), e("when", m2("event", m1("exclude", strs(<<"deployment">>)), "matrix", m1("NOPE", str("1"))))>>), nul}
\* containers by name
Named(names, f) == map([n \in 1..Len(names) |-> e(names[n], f[n])])
Matrices == {nul, m1("A", strs(<<"1.10", "alpine">>)), m2("B", strs(<<"x", "y">>), "A", strs(<<"1.10">>)), m1("include", seq(<<m1("A", str("1.10")), m2("B", str("x"), "A", str("1.10"))>>)), m1("A", seq(<<>>)), m1("include", seq(<<>>))}
BranchConds == {nul, str("master"), strs(<<"master", "release/*">>), m1("exclude", str("dev")), m2("include", strs(<<"*">>), "exclude", strs(<<"dev">>)), m1("include", strs(<<"feature/**">>))}
PNames == {<<"a">>, <<"a", "b">>, <<"a_1", "clone">>, <<"clone", "a">>}
CNames == {<<>>, <<"clone">>, <<"a">>}
VARIABLES doc, envs, out
vars == <<doc, envs, out>>
Init ==
  \E pn \in PNames, cn \in CNames, mx \in Matrices, br \in BranchConds :
  \E pc \in [1..Len(pn) -> Cont], cc \in {m1("image", str("git")), m2("image", str("git"), "volumes", strs(<<"/c:/c">>))}, sv \in {nul, map(<<e("db", m2("image", str("redis:${A}"), "when", m1("matrix", m1("A", str("alpine")))))>>)} :
    /\ Len(pn) <= MaxSteps
    \* one thing at a time beside the containers
    /\ Cardinality({n \in 1..3 : <<mx, br, cn>>[n] # <<nul, nul, <<>>>>[n]}) <= 2
    /\ envs \in {{}, {"clone"}}
    /\ doc = map(opt("matrix", mx) \o opt("branches", br) \o (IF cn = <<>> THEN <<>> ELSE <<e("clone", Named(cn, [n \in {1} |-> cc]))>>) \o <<e("pipeline", Named(pn, pc))>> \o opt("services", sv))
    /\ out = Legacy(doc, [set |-> FALSE, host |-> "", path |-> ""], envs)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Ax == Axes(F(doc, "matrix"))
Ps == out.pipelines
OnePerAxis == Len(Ps) = IF Ax = <<>> THEN 1 ELSE Len(Ax)
\* the steps of a combination: all those that its variables allow, in order, clone first
Src == (IF IsMap(F(doc, "clone")) THEN F(doc, "clone").v ELSE IF "clone" \in envs THEN <<e("clone", map(<<>>))>> ELSE <<>>) \o F(doc, "pipeline").v
Allowed(x, a) == \A k \in Keys(F(F(x.v, "when"), "matrix")) : k \in DOMAIN a /\ a[k] = Str(F(F(F(x.v, "when"), "matrix"), k))
StepsOK == \A n \in 1..Len(Ps) : MapSeq(Ps[n].steps, LAMBDA c : c.name) = MapSeq(IF Ax = <<>> THEN Src ELSE SelectSeq(Src, LAMBDA x : Allowed(x, Ax[n])), LAMBDA x : x.k)
NoClone == \A n \in 1..Len(Ps) : Ps[n].clone.disable <=> (IsMap(F(doc, "clone")) \/ "clone" \in envs)
\* a variable of the matrix does not survive
Gone(s) == \A k \in {"A", "B"} : ~HasSub(s, "${" \o k \o "}")
Replaced == Ax # <<>> => \A n \in 1..Len(Ps) : \A s \in Elems(Ps[n].steps) \cup Elems(Ps[n].services) : "A" \in DOMAIN Ax[n] => ~HasSub(s.image, "${A}") /\ (DOMAIN Ax[n] = {"A", "B"} => \A c \in Elems(s.commands) : Gone(c))
\* a build of a branch triggers the pipeline as the file said; pull requests always; tags when a step wants them or nothing was said
BuildOf(ref, branch) == [ref |-> ref, branch |-> branch]
Triggered(p, b) == Match(p.trigger.ref, b.ref) /\ Match(p.trigger.branch, b.branch)
Said == LCond(F(doc, "branches"))
Branches_ == {"master", "dev", "release/1", "feature/a/b"}
TriggerOK == \A n \in 1..Len(Ps) : \A b \in Branches_ : Triggered(Ps[n], BuildOf("refs/heads/" \o b, b)) <=> Match(Said, b)
TagsOK == (Said.include # <<>> /\ Said.exclude = <<>> /\ \E x \in Elems(Src) : "tag" \in Elems(LCond(F(F(x.v, "when"), "event")).include)) => \A n \in 1..Len(Ps) : Triggered(Ps[n], BuildOf("refs/tags/v1", "master"))
Deploy == \A n \in 1..Len(Ps) : \A s \in Elems(Ps[n].steps) : s.when.event.include \o s.when.event.exclude # <<>> => {"deploy", "deployment"} \cap Elems(s.when.event.include \o s.when.event.exclude) = {}
Emit == PrintT(ToJson([doc |-> doc, envs |-> envs]))
=============================================================================
