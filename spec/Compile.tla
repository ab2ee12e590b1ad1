------------------------------ MODULE Compile ------------------------------
(***************************************************************************)
(* From a pipeline to the runtime plan (yaml/compiler).  Fresh identifiers  *)
(* are "@i" for step i.  Compile(p, o) is the plan before transforms; o are *)
(* the compiler's options:                                                  *)
(*   creds (text), usedind, dind (list), skip (build attributes, or none),  *)
(*   host (host workspace directory or ""), hostmount (BOOLEAN).            *)
(***************************************************************************)
EXTENDS Glob, ImageRef, Lint

At(i) == "@" \o ToString(i)

\* ---- paths ----
RECURSIVE CleanSegs(_, _, _)
CleanSegs(q, acc, rooted) ==
  IF q = <<>> THEN acc
  ELSE LET s == Head(q) IN
    IF s = "" \/ s = "." THEN CleanSegs(Tail(q), acc, rooted)
    ELSE IF s = ".." THEN
      IF acc # <<>> /\ acc[Len(acc)] # ".." THEN CleanSegs(Tail(q), SubSeq(acc, 1, Len(acc) - 1), rooted)
      ELSE IF rooted THEN CleanSegs(Tail(q), acc, rooted)
      ELSE CleanSegs(Tail(q), Append(acc, ".."), rooted)
    ELSE CleanSegs(Tail(q), Append(acc, s), rooted)
CleanPath(s) ==
  IF s = "" THEN ""
  ELSE LET rooted == HasPrefix(s, "/") q == CleanSegs(Split(s, "/"), <<>>, rooted) IN
       IF rooted THEN "/" \o Join(q, "/") ELSE IF q = <<>> THEN "." ELSE Join(q, "/")
JoinPath(a, b) == CleanPath(IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o "/" \o b)
WinPath(s) == StrReplace(s, "/", "\\")

Windows(p) == p.platform.os = "windows"
Workspace(p) ==
  LET base == IF p.workspace.base = "" THEN "/drone/src" ELSE p.workspace.base
      full == JoinPath(base, p.workspace.path) IN
  IF Windows(p)
  THEN [base |-> "c:" \o WinPath(base), path |-> WinPath(p.workspace.path), full |-> "c:" \o WinPath(full)]
  ELSE [base |-> base, path |-> p.workspace.path, full |-> full]

WorkspaceEnv(w) ==
  [k \in {"DRONE_WORKSPACE_BASE", "DRONE_WORKSPACE_PATH", "DRONE_WORKSPACE", "CI_WORKSPACE_BASE", "CI_WORKSPACE_PATH", "CI_WORKSPACE"} |->
     IF HasSuffix(k, "_BASE") THEN w.base ELSE IF HasSuffix(k, "_PATH") THEN w.path ELSE w.full]
WorkspaceMounts(w, o) ==
  IF o.hostmount THEN <<[name |-> "host", path |-> w.full]>> \o (IF w.path = "" THEN <<>> ELSE <<[name |-> "workspace", path |-> w.base]>>)
  ELSE <<[name |-> "workspace", path |-> w.base]>>

\* ---- settings ----
RECURSIVE Nested(_)
Nested(v) == v.t = "map" \/ (v.t = "seq" /\ \E i \in 1..Len(v.v) : v.v[i].t \in {"map", "seq"})
Plain(v) == IF v.t = "null" THEN "" ELSE IF v.t = "seq" THEN "?" ELSE v.s
SettingText(v) == IF v.t = "seq" THEN Join(MapSeq(v.v, Plain), ",") ELSE Plain(v)
KeyText(k) == From(k, 3)     \* "s:name", "i:1", "b:true"
RECURSIVE JTree(_)
JTree(v) ==
  CASE v.t = "seq" -> [t |-> "seq", v |-> MapSeq(v.v, JTree)]
    [] v.t = "map" -> [t |-> "map", v |-> [k \in {KeyText(x) : x \in DOMAIN v.v} |-> JTree(v.v[CHOOSE x \in DOMAIN v.v : KeyText(x) = k])]]
    [] OTHER -> v
PluginKey(k) == "PLUGIN_" \o Upper(k)
RECURSIVE LessStr(_, _)
LessStr(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                 ELSE IF Ch(a, 1) = Ch(b, 1) THEN LessStr(From(a, 2), From(b, 2)) ELSE Ord(Ch(a, 1)) < Ord(Ch(b, 1))
\* of the settings sharing a variable, the last in key order counts
LastKey(K) == CHOOSE k \in K : \A x \in K : x = k \/ LessStr(x, k)
SettingVars(c) ==
  LET live == {k \in DOMAIN c.settings : c.settings[k].t # "nil"}
      vars == {PluginKey(k) : k \in live} IN
  [v \in vars |-> c.settings[LastKey({k \in live : PluginKey(k) = v})]]
EnvLits(c) == [k \in {x \in DOMAIN c.environment : c.environment[x].t = "lit"} |-> c.environment[k].s]
EnvSecrets(c) == {k \in DOMAIN c.environment : c.environment[k].t \in {"secret", "both"}}
IsSecretSetting(x) == x.t \in {"secret", "both"}
\* the variables of a step that come from its container
SettingLits(c) == LET sv == SettingVars(c) IN
   [v \in {x \in DOMAIN sv : ~IsSecretSetting(sv[x])} |-> IF Nested(sv[v].v) THEN "{json}" ELSE SettingText(sv[v].v)]
JsonSettings(c) == LET sv == SettingVars(c) IN
   [v \in {x \in DOMAIN sv : ~IsSecretSetting(sv[x]) /\ Nested(sv[x].v)} |-> JTree(sv[v].v)]
ContainerEnv(c) == Over(Without(EnvLits(c), DOMAIN SettingVars(c)), SettingLits(c))
\* the secrets of a step: a set of (secret, variable) pairs
ContainerSecrets(c) ==
  LET sv == SettingVars(c) IN
  {[name |-> c.environment[k].s, env |-> k] : k \in EnvSecrets(c) \ DOMAIN sv}
  \cup {[name |-> sv[v].s, env |-> v] : v \in {x \in DOMAIN sv : IsSecretSetting(sv[x])}}

\* ---- containers ----
PullOf(c) == LET s == Lower(c.pull) IN IF s \in {"always", "if-not-exists", "never"} THEN s ELSE "default"
ResObjOf(r) == [set |-> r.set, cpu |-> r.cpu.m, memory |-> r.memory]
ResourcesOf(c) == [set |-> c.resources.set, limits |-> ResObjOf(c.resources.limits), requests |-> ResObjOf(c.resources.requests)]
PortsOf(c) == LET q == SelectSeq(c.ports, LAMBDA x : ~x.nil) IN MapSeq(q, LAMBDA x : [port |-> x.port, host |-> x.host, protocol |-> x.protocol])
MountsOf(c) == LET q == SelectSeq(c.volumes, LAMBDA x : ~x.nil /\ x.name # "_docker_socket") IN
               MapSeq(q, LAMBDA x : [name |-> x.name, path |-> x.path])
NoSkip(o) == ~Has(o, "skip")
RunPolicyOf(c, o) == IF ~NoSkip(o) /\ SkipStep(c.when, o.skip) THEN "never" ELSE StatusPolicy(c.when)
Whitelisted(c, l) == c.commands = <<>> /\ c.command = <<>> /\ c.entrypoint = <<>> /\ \E i \in 1..Len(l) : SameImage(l[i], c.image)
Granted(c, o) == o.usedind /\ Whitelisted(c, o.dind)
HasScript(c) == c.commands # <<>>
WinScriptEnv == [k \in {"CI_SCRIPT", "SHELL"} |-> IF k = "SHELL" THEN "powershell.exe" ELSE "#"]
WorkDir(c, w, detach) == IF detach /\ c.commands = <<>> THEN c.working_dir ELSE w.full
StepLabels(c) == [k \in {"io.drone.step.name"} |-> c.name]

\* the runtime step of container c at position i of the plan
ImageStep(p, c, i, detach, o) ==
  LET w == Workspace(p) sc == HasScript(c) win == Windows(p) IN
  [name |-> c.name, labels |-> StepLabels(c), detach |-> detach, depends_on |-> c.depends_on, devices |-> <<>>,
   envs |-> Over(Over(ContainerEnv(c), IF sc /\ win THEN WinScriptEnv ELSE Empty), WorkspaceEnv(w)),
   files |-> IF sc /\ ~win THEN <<[name |-> At(i), path |-> "/usr/drone/bin/init", mode |-> 511]>> ELSE <<>>,
   ignore_err |-> Lower(c.failure) = "ignore", ignore_std |-> FALSE, resources |-> ResourcesOf(c),
   run_policy |-> RunPolicyOf(c, o), secrets |-> ContainerSecrets(c),
   volumes |-> MountsOf(c) \o WorkspaceMounts(w, o), working_dir |-> WorkDir(c, w, detach),
   args |-> IF ~sc THEN c.command ELSE IF win THEN <<"[System.Text.Encoding]::UTF8.GetString([System.Convert]::FromBase64String($Env:CI_SCRIPT)) | iex">> ELSE <<"/usr/drone/bin/init">>,
   command |-> IF ~sc THEN c.entrypoint ELSE IF win THEN <<"powershell", "-noprofile", "-noninteractive", "-command">> ELSE <<"/bin/sh">>,
   dns |-> c.dns, dns_search |-> c.dns_search, extra_hosts |-> c.extra_hosts, image |-> Expand(c.image),
   network |-> c.network, networks |-> <<>>, ports |-> PortsOf(c), privileged |-> c.privileged \/ Granted(c, o),
   pull |-> PullOf(c), user |-> c.user]

BuildEnv(c, i) ==
  LET b == c.build
      e == (IF b.cache_from = <<>> THEN {} ELSE {"DOCKER_BUILD_CACHE_FROM"}) \cup (IF b.dockerfile = "" THEN {} ELSE {"DOCKER_BUILD_DOCKERFILE"})
           \cup (IF b.context = "" THEN {} ELSE {"DOCKER_BUILD_CONTEXT"}) \cup (IF b.image = "" THEN {} ELSE {"DOCKER_BUILD_IMAGE", "DOCKER_BUILD_IMAGE_ALIAS"}) IN
  [k \in e |-> CASE k = "DOCKER_BUILD_CACHE_FROM" -> Join(b.cache_from, ",") [] k = "DOCKER_BUILD_DOCKERFILE" -> b.dockerfile
                 [] k = "DOCKER_BUILD_CONTEXT" -> b.context [] k = "DOCKER_BUILD_IMAGE" -> Expand(b.image)
                 [] k = "DOCKER_BUILD_IMAGE_ALIAS" -> Alias(b.image, At(i))]
SocketMount == [name |-> "_docker_socket", path |-> "/var/run/docker.sock"]
BuildStep(p, c, i, o) ==
  LET w == Workspace(p) IN
  [name |-> c.name, labels |-> StepLabels(c), detach |-> c.detach, depends_on |-> c.depends_on, devices |-> <<>>,
   envs |-> Over(BuildEnv(c, i), WorkspaceEnv(w)), files |-> <<>>, ignore_err |-> Lower(c.failure) = "ignore", ignore_std |-> FALSE,
   resources |-> ResourcesOf(c), run_policy |-> RunPolicyOf(c, o), secrets |-> {},
   volumes |-> <<SocketMount>> \o WorkspaceMounts(w, o),
   working_dir |-> IF c.detach /\ c.commands = <<>> THEN "" ELSE w.full,
   args |-> <<"--build">>, command |-> <<>>, dns |-> c.dns, dns_search |-> <<>>, extra_hosts |-> <<>>, image |-> "drone/docker",
   network |-> "", networks |-> <<>>, ports |-> <<>>, privileged |-> Granted(c, o), pull |-> "if-not-exists", user |-> ""]

\* ---- clone ----
CloneImage(pf) ==
  IF pf.os = "linux" /\ pf.arch \in {"arm", "arm64"} THEN "drone/git:linux-" \o pf.arch
  ELSE IF pf.os = "windows" THEN "drone/git:windows-" \o (IF pf.version \in {"1903", "1809", "1803", "1709"} THEN pf.version ELSE "1809") \o "-amd64"
  ELSE "drone/git"
NoCond == [include |-> <<>>, exclude |-> <<>>]
NoSize == [n |-> 0, e |-> 0]
NoRes == [set |-> FALSE, cpu |-> [s |-> "0", m |-> 0], memory |-> NoSize]
BlankContainer(name, img) ==
  [nil |-> FALSE, build |-> [set |-> FALSE], command |-> <<>>, commands |-> <<>>, detach |-> FALSE, depends_on |-> <<>>, devices |-> <<>>,
   dns |-> <<>>, dns_search |-> <<>>, entrypoint |-> <<>>, environment |-> Empty, extra_hosts |-> <<>>, failure |-> "", image |-> img,
   network |-> "", name |-> name, ports |-> <<>>, privileged |-> FALSE, pull |-> "", push |-> [set |-> FALSE, image |-> ""],
   resources |-> [set |-> FALSE, limits |-> NoRes, requests |-> NoRes], settings |-> Empty, shell |-> "", user |-> "", volumes |-> <<>>,
   when |-> [k \in CondKeys |-> NoCond], working_dir |-> ""]
CloneEnv(p) ==
  LET e == (IF p.clone.depth > 0 THEN {"PLUGIN_DEPTH"} ELSE {}) \cup (IF p.clone.skip_verify THEN {"GIT_SSL_NO_VERIFY", "PLUGIN_SKIP_VERIFY"} ELSE {}) IN
  [k \in e |-> IF k = "PLUGIN_DEPTH" THEN ToString(p.clone.depth) ELSE "true"]
CredsMount == [name |-> ".git-credentials", path |-> "/root/.git-credentials", mode |-> 0]
CloneStep(p, o) ==
  LET s == ImageStep(p, BlankContainer("clone", CloneImage(p.platform)), 1, FALSE, [o EXCEPT !.usedind = FALSE]) IN
  [s EXCEPT !.envs = Over(@, CloneEnv(p)), !.pull = "if-not-exists", !.run_policy = "on-success",
            !.files = IF o.creds = "" THEN <<>> ELSE <<CredsMount>>]

\* ---- the plan ----
Live(q) == SelectSeq(q, LAMBDA c : ~c.nil)
Graph(p) == \E i \in 1..Len(All(p)) : ~All(p)[i].nil /\ All(p)[i].depends_on # <<>>
Cloned(p) == ~p.clone.disable
Offset(p) == IF Cloned(p) THEN 1 ELSE 0
RawSteps(p, o) ==
  LET sv == Live(p.services) st == Live(p.steps) k == Offset(p) g == Graph(p) /\ Cloned(p)
      svc(j) == LET s == ImageStep(p, sv[j], k + j, TRUE, o) IN
                IF g THEN [s EXCEPT !.depends_on = Append(@, "clone")] ELSE s
      stp(j) == LET i == k + Len(sv) + j
                    s == IF st[j].build.set THEN BuildStep(p, st[j], i, o) ELSE ImageStep(p, st[j], i, st[j].detach, o) IN
                IF g /\ s.depends_on = <<>> THEN [s EXCEPT !.depends_on = <<"clone">>] ELSE s IN
  (IF Cloned(p) THEN <<CloneStep(p, o)>> ELSE <<>>) \o [j \in 1..Len(sv) |-> svc(j)] \o [j \in 1..Len(st) |-> stp(j)]

\* positions of the image-build steps
Builds(p) ==
  LET st == Live(p.steps) IN {j \in 1..Len(st) : st[j].build.set}
BuildPos(p, j) == Offset(p) + Len(Live(p.services)) + j
Renamed(p, img) ==
  LET J == {j \in Builds(p) : SameTag(Live(p.steps)[j].build.image, img)} IN
  IF J = {} THEN img ELSE Alias(img, At(BuildPos(p, Max(J))))
Steps(p, o) == MapSeq(RawSteps(p, o), LAMBDA s : [s EXCEPT !.image = Renamed(p, @)])

NoTemp == [set |-> FALSE, medium |-> "", size |-> NoSize]
NoHost == [set |-> FALSE, path |-> ""]
VolWorkspace == [name |-> "workspace", labels |-> Empty, temp |-> [NoTemp EXCEPT !.set = TRUE], host |-> NoHost]
VolHost(d) == [name |-> "host", labels |-> Empty, temp |-> NoTemp, host |-> [set |-> TRUE, path |-> d]]
VolSocket == [name |-> "_docker_socket", labels |-> Empty, temp |-> NoTemp, host |-> [set |-> TRUE, path |-> "/var/run/docker.sock"]]
VolOf(v) == [name |-> v.name, labels |-> Empty, temp |-> v.temp, host |-> IF v.temp.set THEN NoHost ELSE v.host]
Volumes(p, o) ==
  <<VolWorkspace>> \o (IF o.host = "" THEN <<>> ELSE <<VolHost(o.host)>>)
  \o MapSeq(Live(p.volumes), VolOf) \o (IF Builds(p) = {} THEN <<>> ELSE <<VolSocket>>)

\* files of the plan: credentials, then one script per step with commands
ScriptFiles(p) ==
  IF Windows(p) THEN <<>>
  ELSE LET q == Live(p.services) \o Live(p.steps)
           I == SelectSeq([j \in 1..Len(q) |-> j], LAMBDA j : q[j].commands # <<>> /\ ~(j > Len(Live(p.services)) /\ q[j].build.set)) IN
       MapSeq(I, LAMBDA j : [name |-> At(Offset(p) + j), data |-> "#"])
Files(p, o) ==
  (IF Cloned(p) /\ o.creds # "" THEN <<[name |-> ".git-credentials", data |-> o.creds]>> ELSE <<>>) \o ScriptFiles(p)

PlanLabels(p) == [k \in {"io.drone.pipeline.name", "io.drone.pipeline.kind", "io.drone.pipeline.type"} |->
                    CASE k = "io.drone.pipeline.name" -> p.name [] k = "io.drone.pipeline.kind" -> p.kind [] OTHER -> p.type]
Plan(p, o) ==
  [labels |-> PlanLabels(p), platform |-> p.platform, volumes |-> Volumes(p, o), steps |-> Steps(p, o),
   files |-> Files(p, o), secrets |-> <<>>, auths |-> <<>>]
=============================================================================
