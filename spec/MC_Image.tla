------------------------------ MODULE MC_Image ------------------------------
(* Image names assembled from parts, valid or not: normal forms are normal,  *)
(* agree with each other, and keep tag and digest.                           *)
EXTENDS ImageRef, Json
Hex64 == "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
Hosts == {"", "docker.io/", "index.docker.io/", "gcr.io/", "gcr.io:443/", "localhost/", "reg:5000/", "Reg.IO/", "a..b/", "reg:x/", "acme/"}
Paths == {"app", "library/app", "acme/app", "a/b/c", "App", "a_b", "a__b", "a___b", "a-b", "a--b", "-a", "a.", "a b", "", "sha256", Hex64}
Tags == {"", ":latest", ":1.0", ":V_1-x", ":", ":.x", ":a:b", ":" \o Hex64}
Digests == {"", "@sha256:" \o Hex64, "@sha256:abc", "@"}
VARIABLES h, p, t, d, s, e, r, q, tr
vars == <<h, p, t, d, s, e, r, q, tr>>
Init == /\ h \in Hosts /\ p \in Paths /\ t \in Tags /\ d \in Digests
        /\ s = h \o p \o t \o d /\ e = Expand(s) /\ r = Ref(s) /\ q = Ref(e) /\ tr = Trim(s)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Normal == Expand(e) = e /\ Trim(tr) = tr /\ Trim(e) = tr
Kept == r.ok => q.ok /\ q.host = r.host /\ q.path = r.path /\ q.digest = r.digest
                /\ q.tag = (IF r.tag = "" /\ r.digest = "" THEN "latest" ELSE r.tag)
Unchanged == ~r.ok => e = s /\ tr = s /\ ~MatchHost(s, "docker.io")
\* a name belongs to exactly one registry
OneHost == r.ok => MatchHost(s, r.host) /\ ~MatchHost(s, r.host \o "x")
Emit == PrintT(ToJson([name |-> s]))
=============================================================================
