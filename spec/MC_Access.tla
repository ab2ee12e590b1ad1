------------------------------ MODULE MC_Access ------------------------------
(* Pipelines that ask for access to the host, one volume or container at a    *)
(* time: a request is never taken back by what is added to it, and what an    *)
(* untrusted pipeline compiles to stays within its containers.                *)
EXTENDS Contain, Shapes, Json
CONSTANTS MaxVols, MaxC
VARIABLES vols, svcs, steps, opts, P
vars == <<vols, svcs, steps, opts, P>>

V(q) == map(<<e("name", str("v"))>> \o q)
Temps == {<<>>, <<e("temp", nul)>>, <<e("temp", map(<<>>))>>, <<e("temp", m1("medium", str("")))>>, <<e("temp", m1("medium", str("memory")))>>, <<e("temp", m1("size_limit", str("1GiB")))>>,
          <<e("temp", m2("medium", str("memory"), "size_limit", int(1024)))>>}
Hosts == {<<>>, <<e("host", nul)>>, <<e("host", map(<<>>))>>, <<e("host", m1("path", str("/etc")))>>, <<e("host", m1("path", str("")))>>}
VolShapes == {V(t \o h) : t \in Temps, h \in Hosts}
Requests ==
  {<<>>, <<e("privileged", bool(TRUE))>>, <<e("privileged", bool(FALSE))>>, <<e("devices", seq(<<>>))>>, <<e("devices", seq(<<nul>>))>>, <<e("devices", seq(<<m2("name", str("d"), "path", str("/dev/d"))>>))>>,
   <<e("network_mode", str(""))>>, <<e("network_mode", str("host"))>>, <<e("network_mode", str("bridge"))>>,
   <<e("ports", seq(<<int(80)>>))>>, <<e("ports", seq(<<m2("port", int(80), "host", int(0))>>))>>, <<e("ports", seq(<<m2("port", int(80), "host", int(80))>>))>>, <<e("ports", seq(<<int(80), m2("port", int(81), "host", int(81))>>))>>,
   <<e("ports", seq(<<m1("host", int(-1)), int(80)>>))>>, <<e("ports", seq(<<m2("port", int(1), "protocol", str("udp")), int(2), m2("port", int(0), "host", int(70000))>>))>>,
   <<e("volumes", seq(<<m2("name", str("v"), "path", str("/m"))>>))>>}
  \cup {<<e(k, v)>> : k \in {"dns", "dns_search", "extra_hosts"}, v \in {seq(<<>>), strs(<<"">>), strs(<<"x">>), strs(<<"x", "y">>)}}
Containers == {map(<<e("name", str("c")), e("image", str("plugins/docker"))>> \o q) : q \in Requests}
              \cup {map(<<e("name", str("c")), e("build", str("acme/app"))>> \o q) : q \in Requests}
              \cup {map(<<e("name", str("c")), e("image", str("i")), e("commands", strs(<<"x">>)), e("detach", bool(TRUE))>> \o q) : q \in Requests}
\* containers named by position
Rename(c, n) == [c EXCEPT !.v[1] = e("name", str(<<"a", "b", "c", "d">>[n]))]
DocOf(v, sv, st) == map(<<e("kind", str("pipeline"))>> \o (IF v = <<>> THEN <<>> ELSE <<e("volumes", seq(v))>>) \o <<e("services", seq(sv)), e("steps", seq(st))>>)
Options == {[creds |-> "", usedind |-> FALSE, dind |-> <<>>, host |-> "", hostmount |-> FALSE],
            [creds |-> "x", usedind |-> TRUE, dind |-> <<"plugins/docker">>, host |-> "/tmp/host", hostmount |-> TRUE]}
Init == vols = <<>> /\ svcs = <<>> /\ steps = <<>> /\ opts \in Options /\ P = TLCEval(Pipeline(DocOf(<<>>, <<>>, <<>>)))
Next == /\ UNCHANGED opts
        /\ LET n == Len(svcs) + Len(steps) + 1 IN
           \/ Len(vols) < MaxVols /\ n = 1 /\ UNCHANGED <<svcs, steps>> /\ \E v \in VolShapes : vols' = Append(vols, v)
           \/ n <= MaxC /\ UNCHANGED <<vols, steps>> /\ steps = <<>> /\ \E c \in Containers : svcs' = Append(svcs, Rename(c, n))
           \/ n <= MaxC /\ UNCHANGED <<vols, svcs>> /\ \E c \in Containers : steps' = Append(steps, Rename(c, n))
        /\ P' = TLCEval(Pipeline(DocOf(vols', svcs', steps')))
Spec == Init /\ [][Next]_vars
\* what is added takes nothing back
Monotone == [][Asks(P) \subseteq Asks(P')]_vars
Sound == AcceptTrusted(P)
Contained == AcceptUntrusted(P) => Escapes(Plan(P, opts), P, opts) = {}
Emit == opts.creds = "" => PrintT(ToJson([doc |-> DocOf(vols, svcs, steps)]))
=============================================================================
