------------------------------- MODULE MC_Plan -------------------------------
(* Pipelines grown one container at a time, compiled at every step.  Focus   *)
(* chooses the containers, the pipelines' own fields and the options that    *)
(* matter to one concern; the guarantees below hold whatever is chosen.      *)
EXTENDS Compile, Shapes, Json
CONSTANTS Focus, MaxS, MaxV
VARIABLES head, svcs, steps, opts, P, R
vars == <<head, svcs, steps, opts, P, R>>

None == nul
Nm == <<"a", "b", "c", "d">>
\* a container: its fields in order
K(q) == map(q)
On(b, q) == IF b THEN q ELSE <<>>
NoOpts == [creds |-> "", usedind |-> FALSE, dind |-> <<>>, host |-> "", hostmount |-> FALSE]
Img(x) == e("image", str(x))

\* ---- what each focus varies: fields of the pipeline, options, containers ----
Heads ==
  CASE Focus = "order" -> {<<>>, <<e("clone", m1("disable", bool(TRUE)))>>, <<e("clone", m2("depth", int(3), "skip_verify", bool(TRUE)))>>}
    [] Focus = "workspace" ->
         {opt("workspace", w) \o opt("platform", p) : w \in {nul} \cup {map(opt("base", b) \o opt("path", p)) : b \in {nul, str(""), str("/go"), str("/a/b/"), str("rel")}, p \in {nul, str("src"), str("../q"), str("/abs"), str("./z//y")}}
                                                   \cup {map(opt("base", b) \o opt("path", p)) : b \in {nul, str("/go")}, p \in {str("/go"), str("/go/src"), str("/drone/src/x"), str("go"), str("/"), str(".")}},
                                                      p \in {nul, m1("os", str("windows")), m1("os", str("linux"))}}
    [] Focus = "config" -> {<<>>, <<e("platform", m2("os", str("windows"), "version", str("1903")))>>}
    [] Focus = "clone" ->
         {opt("clone", c) \o opt("platform", p) : c \in {nul, map(<<>>)} \cup {map(opt("disable", d) \o opt("depth", n) \o opt("skip_verify", v)) : d \in {nul, bool(FALSE), bool(TRUE)}, n \in {nul, int(0), int(1), int(-1), int(50)}, v \in {nul, bool(FALSE), bool(TRUE)}},
                                                  p \in {nul} \cup {map(opt("os", o) \o opt("arch", a) \o opt("version", v)) : o \in {nul, str("linux"), str("windows")}, a \in {nul, str("arm"), str("arm64"), str("amd64")}, v \in {nul, str("1903"), str("1709"), str("2019")}}}
    [] Focus = "volumes" ->
         {opt("volumes", v) \o opt("platform", p) : v \in {nul} \cup {seq(q) : q \in UNION {[1..n -> {nul, m1("name", str("x")), m2("name", str("x"), "temp", map(<<>>)), m2("name", str("y"), "temp", m2("medium", str("memory"), "size_limit", str("1GiB"))),
                                  m2("name", str("z"), "host", m1("path", str("/z"))), map(<<e("name", str("w")), e("temp", map(<<>>)), e("host", m1("path", str("/w")))>>)}] : n \in 0..2}}, p \in {nul}}
    [] OTHER -> {<<>>}
Opts ==
  CASE Focus = "privilege" -> {NoOpts} \cup {[NoOpts EXCEPT !.usedind = TRUE, !.dind = l] : l \in {<<>>, <<"plugins/docker">>, <<"plugins/docker:3">>, <<"gcr.io/acme/app", "docker.io/plugins/docker">>, <<"drone/docker">>}}
    [] Focus \in {"workspace", "volumes"} -> {NoOpts, [NoOpts EXCEPT !.host = "/tmp/host", !.hostmount = TRUE], [NoOpts EXCEPT !.host = "/tmp/host"]}
    [] Focus \in {"order", "clone"} -> {NoOpts, [NoOpts EXCEPT !.creds = "https://u:p@github.com"]}
    [] OTHER -> {NoOpts}

Ways == {"plain", "script", "detach", "build"}
Way(w) == CASE w = "plain" -> <<Img("i")>> [] w = "script" -> <<Img("i"), e("commands", strs(<<"x">>))>> [] w = "detach" -> <<Img("i"), e("detach", bool(TRUE))>>
            [] w = "build" -> <<e("build", str("acme/app"))>> [] w = "buildd" -> <<e("detach", bool(TRUE)), e("build", m1("image", str("acme/app")))>>
\* the containers that may come at position n
Containers(n, service) ==
  LET nm == e("name", str(Nm[n])) earlier == {Nm[i] : i \in 1..(n - 1)} IN
  CASE Focus = "order" ->
         {nul} \cup {K(<<nm>> \o Way(w) \o d) : w \in Ways \cup {"buildd"}, d \in {<<>>} \cup {<<e("depends_on", strs(<<x>>))>> : x \in earlier \cup {"clone"}} \cup (IF Cardinality(earlier) > 1 THEN {<<e("depends_on", strs(<<"b", "a">>))>>} ELSE {})}
    [] Focus = "privilege" ->
         LET I == {"plugins/docker", "plugins/docker:17", "docker.io/plugins/docker", "plugins/dockerish", "gcr.io/acme/app:1.0", "drone/docker"}
             X == {<<>>, <<e("commands", strs(<<"x">>))>>, <<e("commands", seq(<<>>))>>, <<e("command", strs(<<"x">>))>>, <<e("entrypoint", strs(<<"x">>))>>, <<e("privileged", bool(TRUE))>>,
                   <<e("privileged", bool(FALSE))>>, <<e("detach", bool(TRUE))>>, <<e("build", str("acme/app"))>>, <<e("build", str("acme/app")), e("privileged", bool(TRUE))>>,
                   <<e("volumes", seq(<<m2("name", str("_docker_socket"), "path", str("/var/run/docker.sock"))>>))>>,
                   <<e("volumes", seq(<<m2("name", str("x"), "path", str("/x")), m2("name", str("_docker_socket"), "path", str("/s")), m2("name", str("y"), "path", str("/y"))>>))>>} IN
         {K(<<nm, Img(i)>> \o x) : i \in I, x \in X} \cup {K(<<nm>> \o x) : x \in {<<e("build", str("acme/app"))>>, <<e("build", map(<<>>))>>}}
    [] Focus = "settings" ->
         LET V == {nul, str("a"), str(""), str("a, b"), str("1.10"), str("nul"), int(0), int(-5), int(1000000), bool(TRUE), bool(FALSE), float("0.1"), float("1.5"), float("3.14159265358979"), float("1e-07"), float("1.2345678901e+20"),
                   seq(<<>>), strs(<<"a">>), strs(<<"a", "b,c", "", "null">>), seq(<<int(1), bool(TRUE), float("2.718281828459045")>>), seq(<<str("1.10"), str("true")>>), seq(<<seq(<<str("a")>>), str("b")>>), seq(<<m1("a", int(1))>>),
                   map(<<>>), m1("a", str("b")), m2("a", float("0.30000000000000004"), "B", m1("c", seq(<<str("true"), bool(TRUE)>>))), m1("from_secret", str("s")), m1("from_secret", str("")), m2("from_secret", str("s"), "x", str("y")), m1("from_secret", int(7))}
             Env == {nul, m1("PLUGIN_K", str("lit")), m1("PLUGIN_K", m1("from_secret", str("t"))), m1("K", str("lit")), m1("PLUGIN_J", m1("value", str("v")))} IN
         {K(<<nm, Img("i"), e("settings", m1(k, v))>> \o opt("environment", v2)) : k \in {"k", "K", "dry-run.x"}, v \in V, v2 \in Env}
         \cup {K(<<nm, Img("i"), e("settings", m2("K", v, "k", w))>>) : v \in V, w \in {str("w"), nul, m1("from_secret", str("u")), strs(<<"p", "q">>)}}
    [] Focus = "workspace" ->
         LET E == {nul} \cup {m1(k, v) : k \in {"DRONE_WORKSPACE_BASE", "DRONE_WORKSPACE_PATH", "DRONE_WORKSPACE", "CI_WORKSPACE_BASE", "CI_WORKSPACE_PATH", "CI_WORKSPACE"}, v \in {str("/mine")}} IN
         IF n = 1 THEN {K(<<nm>> \o Way(w) \o opt("working_dir", d) \o opt("environment", v)) : w \in Ways, d \in {nul, str("/wd")}, v \in E} \cup {K(<<nm, Img("i"), e("settings", m1("x", str("y")))>>)}
         ELSE {K(<<nm>> \o Way(w)) : w \in Ways}
    [] Focus = "images" ->
         LET B == {"acme/app", "acme/app:latest", "acme/app:2", "docker.io/acme/app", "eu.gcr.io/acme/app:1.0", "golang", "not valid"} I == B \cup {"library/golang", "index.docker.io/library/golang:latest", "eu.gcr.io/acme/app"} IN
         {K(<<nm, e("build", str(b))>>) : b \in B} \cup {K(<<nm, Img(i)>>) : i \in I} \cup {K(<<nm, Img("acme/app"), e("build", m2("image", str("acme/app"), "cache_from", strs(<<"acme/app", "golang">>)))>>)}
    [] Focus = "config" ->
         {K(<<nm>> \o w \o <<e(f, x)>>) : w \in {<<>>, Way("plain"), Way("script"), Way("detach"), Way("build")}, <<f, x>> \in UNION {{<<f, x>> : x \in Frag(ContainerFields[f])} : f \in DOMAIN ContainerFields \ {"name"}}}
    [] Focus = "volumes" ->
         {K(<<nm>> \o Way(w) \o opt("volumes", v)) : w \in {"plain", "build"}, v \in {nul, seq(<<nul>>), seq(<<m2("name", str("x"), "path", str("/m"))>>), seq(<<m2("name", str("y"), "path", str("/m")), m2("name", str("x"), "path", str("rel"))>>)}}
    [] Focus = "clone" -> {K(<<nm, Img("i")>>)}
    [] OTHER -> {}

DocOf(h, sv, st) == map(<<e("kind", str("pipeline")), e("name", str("p"))>> \o h \o On(sv # <<>>, <<e("services", seq(sv))>>) \o On(st # <<>>, <<e("steps", seq(st))>>))
Doc == DocOf(head, svcs, steps)
Init == head \in Heads /\ opts \in Opts /\ svcs = <<>> /\ steps = <<>> /\ P = TLCEval(Pipeline(Doc)) /\ R = TLCEval(Plan(P, opts))
Next == /\ UNCHANGED <<head, opts>>
        /\ LET n == Len(svcs) + Len(steps) + 1 IN
           \/ Len(svcs) < MaxV /\ steps = <<>> /\ UNCHANGED steps /\ \E c \in Containers(n, TRUE) : svcs' = Append(svcs, c)
           \/ Len(steps) < MaxS /\ UNCHANGED svcs /\ \E c \in Containers(n, FALSE) : steps' = Append(steps, c)
        /\ P' = TLCEval(Pipeline(DocOf(head, svcs', steps'))) /\ R' = TLCEval(Plan(P', opts))
Spec == Init /\ [][Next]_vars

\* P is the pipeline, R its plan
Off == Offset(P)
Src == Live(P.services) \o Live(P.steps)
IsBuild(j) == j > Len(Live(P.services)) /\ Src[j].build.set
Fits == FitsPipeline(Doc)
\* clone, then services, then steps, each once and in order
Order == MapSeq(R.steps, LAMBDA s : s.name) = (IF Cloned(P) THEN <<"clone">> ELSE <<>>) \o MapSeq(Src, LAMBDA c : c.name)
Detached == \A j \in 1..Len(Src) : R.steps[Off + j].detach = (j <= Len(Live(P.services)) \/ Src[j].detach)
\* what was declared is kept; only the clone is added; without declarations nothing is
Names(q) == {q[i].name : i \in 1..Len(q)}
Deps == \A j \in 1..Len(Src) :
  LET d == R.steps[Off + j].depends_on IN
  /\ SubSeq(d, 1, Len(Src[j].depends_on)) = Src[j].depends_on
  /\ Elems(d) \ Elems(Src[j].depends_on) \subseteq (IF Graph(P) /\ Cloned(P) THEN {"clone"} ELSE {})
RECURSIVE Below(_, _)
Below(S, n) == IF n = 0 THEN S ELSE Below(S \cup UNION {Elems(R.steps[i].depends_on) : i \in {i \in 1..Len(R.steps) : R.steps[i].name \in S}}, n - 1)
\* in a graph nothing starts before the clone; the clone waits for nobody
AfterClone == (Cloned(P) /\ Graph(P) /\ AcceptTrusted(P)) => R.steps[1].depends_on = <<>> /\ \A j \in 1..Len(Src) : "clone" \in Below({Src[j].name}, Len(Src) + 1)
\* privilege: asked for, or granted to a whitelisted image that runs nothing of the user's
Privilege == \A j \in 1..Len(Src) : R.steps[Off + j].privileged =>
  \/ ~IsBuild(j) /\ Src[j].privileged
  \/ opts.usedind /\ Src[j].commands = <<>> /\ Src[j].command = <<>> /\ Src[j].entrypoint = <<>> /\ \E i \in 1..Len(opts.dind) : Trim(opts.dind[i]) = Trim(Src[j].image)
CloneUnprivileged == Cloned(P) => ~R.steps[1].privileged
Socket ==
  /\ \A j \in 1..Len(Src) : (\E m \in Elems(R.steps[Off + j].volumes) : m.name = "_docker_socket") <=> IsBuild(j)
  /\ Cloned(P) => \A m \in Elems(R.steps[1].volumes) : m.name # "_docker_socket"
  /\ (\E v \in Elems(R.volumes) : v.name = "_docker_socket") <=> \E j \in 1..Len(Src) : IsBuild(j)
\* a variable is a literal or a secret, never both of the same step's settings
Apart == \A j \in 1..Len(Src) : \A s \in R.steps[Off + j].secrets : HasPrefix(s.env, "PLUGIN_") => s.env \notin DOMAIN R.steps[Off + j].envs
Settings_ == \A j \in 1..Len(Src) : IsBuild(j) \/ \A k \in DOMAIN Src[j].settings :
  Src[j].settings[k].t = "nil" \/ (PluginKey(k) \in DOMAIN R.steps[Off + j].envs \/ \E s \in R.steps[Off + j].secrets : s.env = PluginKey(k))
\* one workspace for all
OneWorkspace == \A i \in 1..Len(R.steps) :
  /\ \A k \in DOMAIN WorkspaceEnv(Workspace(P)) : R.steps[i].envs[k] = R.steps[1].envs[k]
  /\ Elems(WorkspaceMounts(Workspace(P), opts)) \subseteq Elems(R.steps[i].volumes)
Mounted == \A i \in 1..Len(R.steps) : \A m \in Elems(R.steps[i].volumes) : m.name \in {"workspace", "host", "_docker_socket"} =>
  (\E v \in Elems(R.volumes) : v.name = m.name) \/ (m.name = "host" /\ opts.host = "")
\* a step uses the last image built under its name
Aliased == \A j \in 1..Len(Src) : IsBuild(j) \/ Src[j].image = "" \/
  LET B == {b \in 1..Len(Src) : IsBuild(b) /\ Expand(Src[b].build.image) = Expand(Src[j].image)} IN
  R.steps[Off + j].image = IF B = {} THEN Expand(Src[j].image) ELSE R.steps[Off + Max(B)].envs["DOCKER_BUILD_IMAGE_ALIAS"]
Emit == PrintT(ToJson([doc |-> Doc, opts |-> opts]))
=============================================================================
