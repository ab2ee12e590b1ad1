------------------------------ MODULE JCompile ------------------------------
(* Differences between an observed plan and the specified one, by kind.      *)
EXTENDS Transform

WsVars == {"DRONE_WORKSPACE_BASE", "DRONE_WORKSPACE_PATH", "DRONE_WORKSPACE", "CI_WORKSPACE_BASE", "CI_WORKSPACE_PATH", "CI_WORKSPACE"}
CloneVars == {"PLUGIN_DEPTH", "GIT_SSL_NO_VERIFY", "PLUGIN_SKIP_VERIFY"}
WsMount(m) == m.name \in {"workspace", "host"}
SockMount(m) == m.name = "_docker_socket"
OtherMount(m) == ~WsMount(m) /\ ~SockMount(m)
Near(a, b) == a - b \in -1..1
SameObj(a, b) == a.set = b.set /\ (a.set => Near(a.cpu, b.cpu) /\ a.memory = b.memory)
SameRes(a, b) == a.set = b.set /\ SameObj(a.limits, b.limits) /\ SameObj(a.requests, b.requests)
SecretsMatch(list, set) == Len(list) = Cardinality(set) /\ Elems(list) = set

\* trees may differ in kind anywhere, which TLC does not compare
RECURSIVE SameTree(_, _)
SameTree(a, b) ==
  a.t = b.t /\ CASE a.t = "null" -> TRUE
                 [] a.t = "seq" -> Len(a.v) = Len(b.v) /\ \A n \in 1..Len(a.v) : SameTree(a.v[n], b.v[n])
                 [] a.t = "map" -> DOMAIN a.v = DOMAIN b.v /\ \A k \in DOMAIN a.v : SameTree(a.v[k], b.v[k])
                 [] OTHER -> a.s = b.s
\* loose: the order of mounts is immaterial (several volumes attached)
\* jobs: observed JSON settings; js: specified ones
DiffStep(a, b, jobs, js, loose) ==
  LET J == {k \in DOMAIN js : Has(b.envs, k) /\ b.envs[k] = "{json}"}
      plug(k) == HasPrefix(k, "PLUGIN_")
      keys == (DOMAIN a.envs) \cup (DOMAIN b.envs)
      skip == J \cup {"CI_SCRIPT"}
      diff == {k \in keys \ skip : ~(k \in DOMAIN a.envs /\ k \in DOMAIN b.envs /\ a.envs[k] = b.envs[k])}
              \cup (IF "CI_SCRIPT" \in DOMAIN b.envs /\ b.envs["CI_SCRIPT"] = "#" THEN (IF "CI_SCRIPT" \in DOMAIN a.envs THEN {} ELSE {"CI_SCRIPT"})
                    ELSE IF "CI_SCRIPT" \in keys /\ ~("CI_SCRIPT" \in DOMAIN a.envs /\ "CI_SCRIPT" \in DOMAIN b.envs /\ a.envs["CI_SCRIPT"] = b.envs["CI_SCRIPT"]) THEN {"CI_SCRIPT"} ELSE {})
      mounts(q) == SelectSeq(q, OtherMount)
      same(p, q) == IF loose THEN SameBag(p, q) ELSE p = q IN
  Label(a.name = b.name, "names") \cup Label(a.labels = b.labels \/ SameMap(a.labels, b.labels), "steplabels") \cup Label(a.detach = b.detach, "detach")
  \cup Label(a.depends_on = b.depends_on, "depends_on") \cup Label(a.devices = b.devices, "devices")
  \cup Label(\A k \in diff : ~plug(k) \/ k \in CloneVars, "plugin_env")
  \cup Label(\A k \in J : k \in DOMAIN a.envs /\ Has(jobs, k) /\ SameTree(jobs[k], js[k]), "plugin_json")
  \cup Label(diff \cap CloneVars = {}, "clone_env")
  \cup Label(diff \cap WsVars = {}, "ws_env")
  \cup Label(\A k \in diff : plug(k) \/ k \in WsVars \/ k \in CloneVars \/ HasPrefix(k, "DOCKER_BUILD_IMAGE"), "env")
  \cup Label(\A k \in diff : ~HasPrefix(k, "DOCKER_BUILD_IMAGE"), "build_image")
  \cup Label(\A s \in b.secrets : ~(s.env \in DOMAIN a.envs /\ s.env \notin DOMAIN b.envs), "secret_plain")
  \cup Label(a.files = b.files, "stepfiles") \cup Label(a.ignore_err = b.ignore_err, "ignore_err") \cup Label(~a.ignore_std, "ignore_std")
  \cup Label(SameRes(a.resources, b.resources), "resources") \cup Label(a.run_policy = b.run_policy, "run_policy")
  \cup Label(SecretsMatch(a.secrets, b.secrets), "secretrefs")
  \cup Label(same(mounts(a.volumes), mounts(b.volumes)), "mounts")
  \cup Label(SameBag(SelectSeq(a.volumes, WsMount), SelectSeq(b.volumes, WsMount)), "ws_mounts")
  \cup Label(SelectSeq(a.volumes, SockMount) = SelectSeq(b.volumes, SockMount), "socket_mount")
  \cup Label(same(a.volumes, b.volumes), "mount_order")
  \cup Label(a.working_dir = b.working_dir, "working_dir")
  \cup Label(a.args = b.args, "args") \cup Label(a.command = b.command, "command") \cup Label(a.dns = b.dns, "dns") \cup Label(a.dns_search = b.dns_search, "dns_search")
  \cup Label(a.extra_hosts = b.extra_hosts, "extra_hosts") \cup Label(a.image = b.image, "image") \cup Label(a.network = b.network, "network")
  \cup Label(a.networks = b.networks, "networks") \cup Label(a.ports = b.ports, "ports") \cup Label(a.privileged = b.privileged, "privileged")
  \cup Label(a.pull = b.pull, "pull") \cup Label(a.user = b.user, "user")

\* js: the specified JSON settings of each step; p needed to find them
JsonOf(p) ==
  LET sv == Live(p.services) st == Live(p.steps) IN
  (IF Cloned(p) THEN <<Empty>> ELSE <<>>) \o MapSeq(sv, JsonSettings) \o MapSeq(st, LAMBDA c : IF c.build.set THEN Empty ELSE JsonSettings(c))

VolKind(v) == IF v.host.set THEN "host" ELSE IF v.temp.set THEN "temp" ELSE "none"
WsVol(v) == v.name \in {"workspace", "host"}
DiffPlan(a, b, jobs, js, loose) ==
  LET sock(q) == SelectSeq(q, LAMBDA v : v.name = "_docker_socket")
      ws(q) == SelectSeq(q, LAMBDA v : WsVol(v))
      rest(q) == SelectSeq(q, LAMBDA v : ~WsVol(v) /\ v.name # "_docker_socket")
      strip(q) == MapSeq(q, LAMBDA v : [name |-> v.name, temp |-> v.temp, host |-> v.host])
      same(p, q) == IF loose THEN SameBag(p, q) ELSE p = q IN
  Label(a.uids_ok, "uids") \cup Label(a.ns_ok, "namespace") \cup Label(a.labels_ok, "nolabels")
  \cup Label(SameMap(a.labels, b.labels), "planlabels") \cup Label(a.platform = b.platform, "platform")
  \cup Label(same(strip(rest(a.volumes)), strip(rest(b.volumes))), "volumes")
  \cup Label(strip(ws(a.volumes)) = strip(ws(b.volumes)), "ws_volumes")
  \cup Label(strip(sock(a.volumes)) = strip(sock(b.volumes)), "socket_volume")
  \cup Label(same(MapSeq(a.volumes, LAMBDA v : v.name), MapSeq(b.volumes, LAMBDA v : v.name)), "volume_order")
  \cup Label(~(Len(a.volumes) = Len(b.volumes)) \/
            (IF loose THEN SameBag(a.volumes, b.volumes) ELSE \A i \in 1..Len(a.volumes) : SameMap(a.volumes[i].labels, b.volumes[i].labels)), "volumelabels")
  \cup Label(a.files = b.files, "files") \cup Label(SameBag(a.secrets, b.secrets), "secrets") \cup Label(a.auths = b.auths, "auths")
  \cup Label(Len(a.steps) = Len(b.steps), "steps")
  \cup (IF Len(a.steps) = Len(b.steps)
        THEN UNION {DiffStep(a.steps[i], b.steps[i], jobs[i], js[i], loose) : i \in 1..Len(a.steps)} ELSE {})

\* attaching several volumes leaves their order open
RECURSIVE Attaches(_)
Attaches(ts) == IF ts = <<>> THEN FALSE
                ELSE Head(ts).F \in {"volumes", "volumeslice"} \/ (Head(ts).F = "combine" /\ Attaches(Head(ts).Subs)) \/ Attaches(Tail(ts))

FirstPipeline(docs) == LET q == SelectSeq(Docs(docs), LAMBDA r : r.r = "pipeline") IN Head(q)

\* a compile case: the trees of its documents, options, transforms, observation
CompileDiff(c) ==
  LET p == FirstPipeline(c.docs)
      plan == ApplyAll(c.transforms, Plan(p, c.opts)) IN
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN {"rejected"}
  ELSE DiffPlan(c.o.spec, plan, c.o.json, JsonOf(p), Attaches(c.transforms))
       \cup Label(Blocks(c.o.calls, AskedAll(Flatten(c.transforms), Plan(p, c.opts))), "asked")
       \cup Label((c.o.lint.untrusted = "ok") = AcceptUntrusted(p), "lint_untrusted")
       \cup Label((c.o.lint.trusted = "ok") = AcceptTrusted(p), "lint_trusted")

\* which containers a whitelist makes privileged
VDind(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN {"rejected"}
  ELSE LET p == FirstPipeline(c.docs) q == Live(p.services) \o Live(p.steps) IN
       IF Len(q) # Len(c.o.res) THEN {"count"}
       ELSE Label(\A j \in 1..Len(q) : c.o.res[j] = Whitelisted(q[j], c.whitelist), "dind")
\* image names
VImage(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE LET N == Len(c.names)
           ex == TLCEval([k \in 1..N |-> Expand(c.names[k])])
           tr == TLCEval([k \in 1..N |-> Trim(c.names[k])])
           rf == TLCEval([k \in 1..N |-> Ref(c.names[k])])
           hs == TLCEval([m \in 1..Len(c.hosts) |-> IF c.hosts[m] = "index.docker.io" THEN "docker.io" ELSE c.hosts[m]]) IN
       UNION {LET o == c.o.res[k] IN
         Label(o.expand = ex[k], "expand") \cup Label(o.trim = tr[k], "trim") \cup Label(~o.none, "match_none")
         \cup Label(o.any, "match_any")
         \cup Label(\A m \in 1..N : o.match[m] = (tr[k] = tr[m]), "match")
         \cup Label(\A m \in 1..N : o.tag[m] = (ex[k] = ex[m]), "match_tag")
         \cup Label(\A m \in 1..Len(c.hosts) : o.host[m] = (rf[k].ok /\ rf[k].host = hs[m]), "hostname") : k \in 1..N}
=============================================================================
