----------------------------- MODULE MC_Manifest -----------------------------
(* Manifests grown one resource at a time: accepted manifests have unique     *)
(* pipeline names and an acyclic graph in which every edge points backwards.  *)
EXTENDS Lint, Json
CONSTANT MaxR
DepLists == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"zz">>}
VARIABLE rs
Pl(n, d, pf) == [r |-> "pipeline", kind |-> "pipeline", type |-> "", name |-> n, depends_on |-> d, platform |-> pf]
Good == [os |-> "linux", arch |-> "amd64"]
Bad == [os |-> "plan9", arch |-> "amd64"]
Other(r) == [r |-> r, kind |-> r, type |-> "", name |-> "a", depends_on |-> <<>>, platform |-> Bad]
Init == rs = <<>>
Next == /\ Len(rs) < MaxR
        /\ \/ \E n \in {"a", "b", ""}, d \in DepLists : rs' = Append(rs, Pl(n, d, Good))
           \/ \E t \in {"docker", "exec"}, k \in {"pipeline", "deploy"}, d \in {<<"a">>, <<"zz">>} : rs' = Append(rs, [Pl("c", d, Good) EXCEPT !.kind = k, !.type = t])
           \/ \E k \in {"pipeline", "deploy", ""}, t \in {"", "docker", "exec"} : rs' = Append(rs, [Pl("c", <<>>, Bad) EXCEPT !.kind = k, !.type = t])
           \/ rs' = Append(rs, Other("secret")) \/ rs' = Append(rs, Other("cron"))
Spec == Init /\ [][Next]_rs
Sound == ManifestUnsound(rs) = {}
Q == Pipelines(rs)
Backwards == Sound => \A i \in 1..Len(Q) : \A d \in Elems(Q[i].depends_on) : \E j \in 1..(i - 1) : Q[j].name = d
Unique == Sound => Cardinality({Q[i].name : i \in 1..Len(Q)}) = Len(Q)
Platforms == Sound => \A i \in 1..Len(Q) : DockerPipeline(Q[i]) => PlatformOK(Q[i].platform)
\* other resources make no difference
Interleaved == Sound = (ManifestUnsound(Q) = {})
Prefixed == [][ManifestUnsound(rs) # {} => ManifestUnsound(rs') # {}]_rs
Emit == rs = <<>> \/ PrintT(ToJson([rs |-> rs]))
=============================================================================
