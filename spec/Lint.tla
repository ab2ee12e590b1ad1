-------------------------------- MODULE Lint --------------------------------
(***************************************************************************)
(* What the linter must reject (yaml/linter), as sets of reasons.           *)
(***************************************************************************)
EXTENDS Resource

Reserved == {"workspace", "_workspace", "_docker_socket"}
OSes == {"", "linux", "windows"}
Arches == {"", "arm", "arm64", "amd64", "ppc64le", "s390x"}
PlatformOK(p) == p.os \in OSes /\ p.arch \in Arches

\* steps first, then services
All(p) == p.steps \o p.services
HasNil(p) == (\E i \in 1..Len(All(p)) : All(p)[i].nil) \/ (\E i \in 1..Len(p.volumes) : p.volumes[i].nil)
CHasNil(c) == (\E i \in 1..Len(c.ports) : c.ports[i].nil) \/ (\E i \in 1..Len(c.volumes) : c.volumes[i].nil)

\* host-level access asked for by container c
AsksC(c) ==
  {k \in {"privileged", "devices", "dns", "dns_search", "extra_hosts", "network_mode", "host_port"} :
     CASE k = "privileged" -> c.privileged
       [] k = "devices" -> c.devices # <<>>
       [] k = "dns" -> c.dns # <<>>
       [] k = "dns_search" -> c.dns_search # <<>>
       [] k = "extra_hosts" -> c.extra_hosts # <<>>
       [] k = "network_mode" -> c.network # ""
       [] k = "host_port" -> \E i \in 1..Len(c.ports) : ~c.ports[i].nil /\ c.ports[i].host # 0}
AsksV(v) == {k \in {"host_volume", "memory_volume"} :
              IF k = "host_volume" THEN v.host.set ELSE v.temp.set /\ v.temp.medium = "memory"}
Asks(p) ==
  UNION {IF All(p)[i].nil THEN {} ELSE AsksC(All(p)[i]) : i \in 1..Len(All(p))}
  \cup UNION {IF p.volumes[i].nil THEN {} ELSE AsksV(p.volumes[i]) : i \in 1..Len(p.volumes)}

NameOf(c) == IF c.nil THEN "" ELSE c.name
CloneNames(p) == IF p.clone.disable THEN {} ELSE {"clone"}
BuildOrImage(c) == IF c.build.set THEN c.build.image ELSE c.image

Unsound(p) ==
  LET q == All(p) N == Len(q)
      live == {i \in 1..N : ~q[i].nil}
      before(i) == CloneNames(p) \cup {q[j].name : j \in {j \in live : j < i}} IN
  {r \in {"nil", "unnamed", "dupname", "image", "dep", "selfdep", "platform", "volname", "mountname"} :
    CASE r = "nil" -> HasNil(p) \/ \E i \in live : CHasNil(q[i])
      [] r = "unnamed" -> \E i \in live : q[i].name = ""
      [] r = "dupname" -> \E i \in live : q[i].name \in before(i)
      [] r = "image" -> \E i \in live : BuildOrImage(q[i]) = ""
      [] r = "dep" -> \E i \in live : \E d \in Elems(q[i].depends_on) : d # q[i].name /\ d \notin before(i)
      [] r = "selfdep" -> \E i \in live : q[i].name \in Elems(q[i].depends_on)
      [] r = "platform" -> ~PlatformOK(p.platform)
      [] r = "volname" -> \E i \in 1..Len(p.volumes) : ~p.volumes[i].nil /\ p.volumes[i].name \in Reserved
      [] r = "mountname" -> \E i \in live : \E j \in 1..Len(q[i].volumes) : ~q[i].volumes[j].nil /\ q[i].volumes[j].name \in Reserved}

AcceptTrusted(p) == Unsound(p) = {}
AcceptUntrusted(p) == Unsound(p) = {} /\ Asks(p) = {}

\* other resources
CompleteRes(r) ==
  CASE r.r = "cron" -> r.branch # ""
    [] r.r = "secret" -> r.data # "" \/ r.get.path # "" \/ r.get.name # ""
    [] r.r = "signature" -> r.hmac # ""
    [] r.r = "registry" -> DOMAIN r.data # {}
LintOK(r, trusted) == IF r.r = "pipeline" THEN (IF trusted THEN AcceptTrusted(r) ELSE AcceptUntrusted(r)) ELSE CompleteRes(r)

\* the graph of pipelines of a manifest
Pipelines(rs) == SelectSeq(rs, LAMBDA r : r.r = "pipeline")
DockerPipeline(p) == p.kind \in {"", "pipeline"} /\ p.type \in {"", "docker"}
ManifestUnsound(rs) ==
  LET q == Pipelines(rs) N == Len(q) before(i) == {q[j].name : j \in 1..(i - 1)} IN
  {r \in {"dupname", "dep", "selfdep", "platform"} :
    CASE r = "dupname" -> \E i \in 1..N : q[i].name \in before(i)
      [] r = "dep" -> \E i \in 1..N : \E d \in Elems(q[i].depends_on) : d # q[i].name /\ d \notin before(i)
      [] r = "selfdep" -> \E i \in 1..N : q[i].name \in Elems(q[i].depends_on)
      [] r = "platform" -> \E i \in 1..N : DockerPipeline(q[i]) /\ ~PlatformOK(q[i].platform)}
=============================================================================
