------------------------------- MODULE Contain -------------------------------
(***************************************************************************)
(* Ways in which a plan reaches beyond its own containers without having    *)
(* been granted it by the operator (the options o).                         *)
(***************************************************************************)
EXTENDS Compile

Named_(p, n) == {c \in Elems(Live(p.services) \o Live(p.steps)) : c.name = n}
BuildsIn(p, n) == \E c \in Elems(Live(p.steps)) : c.name = n /\ c.build.set
Grantable(p, n, o) == o.usedind /\ \E c \in Named_(p, n) : Whitelisted(c, o.dind)
OperatorVolume(v, o) == v.name = "host" /\ o.host # "" /\ v.host.path = o.host
BuildVolume(v, p) == v.name = "_docker_socket" /\ v.host.path = "/var/run/docker.sock" /\ \E c \in Elems(Live(p.steps)) : c.build.set
Escapes(r, p, o) ==
  Label(\A s \in Elems(r.steps) : s.privileged => Grantable(p, s.name, o), "escape_privileged")
  \cup Label(\A s \in Elems(r.steps) : s.devices = <<>>, "escape_devices")
  \cup Label(\A s \in Elems(r.steps) : s.dns = <<>> /\ s.dns_search = <<>> /\ s.extra_hosts = <<>>, "escape_dns")
  \cup Label(\A s \in Elems(r.steps) : s.network = "" /\ s.networks = <<>>, "escape_network")
  \cup Label(\A s \in Elems(r.steps) : \A x \in Elems(s.ports) : x.host = 0, "escape_ports")
  \cup Label(\A v \in Elems(r.volumes) : v.host.set => OperatorVolume(v, o) \/ BuildVolume(v, p), "escape_volume")
  \cup Label(\A v \in Elems(r.volumes) : v.temp.set => v.temp.medium # "memory", "escape_memory")
  \cup Label(\A s \in Elems(r.steps) : \A m \in Elems(s.volumes) : m.name = "_docker_socket" => BuildsIn(p, s.name), "escape_socket")
  \cup Label(\A s \in Elems(r.steps) : \A f \in Elems(s.files) : f.name = ".git-credentials" => s.name = "clone", "escape_credentials")
=============================================================================
