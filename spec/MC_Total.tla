------------------------------ MODULE MC_Total ------------------------------
(* Documents of every kind and dialect, damaged one place at a time.  What a  *)
(* null leaves behind must still be a configuration, with a plan.             *)
EXTENDS Compile, Shapes, Json
CONSTANTS MaxHoles, Holes, Names
VARIABLES name, doc, holes
vars == <<name, doc, holes>>

o(q) == map([i \in 1..(Len(q) \div 2) |-> e(q[2 * i - 1], q[2 * i])])
l(q) == seq(q)
w == str("w")
on == bool(TRUE)
\* fully populated documents
Conds__ == o(<<"branch", w, "event", l(<<w>>), "ref", o(<<"include", l(<<w>>), "exclude", l(<<w>>)>>), "status", l(<<str("failure")>>), "paths", o(<<"exclude", w>>), "matrix", m1("K", w)>>)
Step(n) == o(<<"name", str(n), "image", w, "build", o(<<"image", w, "args", m1("k", w), "cache_from", l(<<w>>), "labels", m1("k", w)>>), "push", o(<<"image", w>>), "command", l(<<w>>), "commands", l(<<w>>),
  "depends_on", l(<<w>>), "detach", on, "devices", l(<<m2("name", w, "path", w)>>), "dns", l(<<w>>), "environment", m2("A", w, "B", m1("from_secret", w)), "failure", w, "ports", l(<<int(1), m2("port", int(2), "host", int(3))>>),
  "resources", o(<<"limits", m2("cpu", int(1), "memory", str("1MiB")), "requests", m1("cpu", int(1))>>), "settings", o(<<"a", w, "b", l(<<w>>), "c", m1("from_secret", w), "d", l(<<m1("k", w)>>)>>),
  "user", w, "volumes", l(<<m2("name", w, "path", w)>>), "when", Conds__>>)
Skeletons == [
  pipeline |-> o(<<"kind", str("pipeline"), "name", w, "clone", o(<<"depth", int(1), "disable", bool(FALSE)>>), "concurrency", m1("limit", int(1)), "depends_on", l(<<w>>), "node", m1("k", w), "platform", m2("os", w, "arch", w),
    "image_pull_secrets", l(<<w>>), "services", l(<<Step("s")>>), "steps", l(<<o(<<"name", w, "image", w>>), Step("t")>>), "trigger", Conds__,
    "volumes", l(<<o(<<"name", w, "temp", m2("medium", w, "size_limit", str("1GiB"))>>), o(<<"name", w, "host", m1("path", w)>>)>>), "workspace", m2("base", w, "path", w)>>),
  cron |-> o(<<"kind", str("cron"), "name", w, "spec", o(<<"schedule", w, "branch", w, "deployment", m1("target", w)>>)>>),
  secret |-> o(<<"kind", str("secret"), "name", w, "data", w, "get", m2("path", w, "name", w)>>),
  registry |-> o(<<"kind", str("registry"), "data", m1("k", w)>>),
  signature |-> o(<<"kind", str("signature"), "hmac", w>>),
  legacy |-> o(<<"workspace", m2("base", w, "path", w), "clone", m1("git", m2("image", w, "depth", int(1))), "branches", o(<<"include", l(<<w>>), "exclude", w>>),
    "matrix", o(<<"A", l(<<w, str("v")>>), "B", l(<<w>>)>>),
    "pipeline", o(<<"a", o(<<"image", w, "commands", l(<<w>>), "command", w, "entrypoint", l(<<w>>), "environment", l(<<str("K=v")>>), "secrets", l(<<w, m2("source", w, "target", w)>>), "volumes", l(<<str("/a:/b")>>), "dns", w, "extra_hosts", l(<<w>>),
        "when", o(<<"branch", l(<<w>>), "event", o(<<"include", w, "exclude", l(<<w>>)>>), "matrix", m1("A", w), "status", w>>), "repo", w, "tags", l(<<w, m1("k", w)>>), "pull", on>>), "b", o(<<"image", w, "environment", m1("K", w)>>)>>),
    "services", m1("s", o(<<"image", w, "ports", l(<<w>>)>>)), "secrets", m1("t", o(<<"driver", str("vault"), "driver_opts", m2("path", w, "key", w)>>))>>),
  include |-> o(<<"matrix", m1("include", l(<<m2("A", w, "B", w), m1("A", w)>>)), "pipeline", m1("a", o(<<"image", str("${A}"), "commands", l(<<str("x ${B} y")>>)>>))>>),
  gitlab |-> o(<<"image", o(<<"name", w, "entrypoint", l(<<w>>)>>), "services", l(<<w, m2("name", w, "alias", w)>>), "before_script", l(<<w>>), "after_script", l(<<w>>), "variables", m1("K", w), "stages", l(<<w, str("v")>>),
    "j", o(<<"stage", w, "image", w, "script", l(<<w>>), "before_script", w, "services", l(<<w>>), "variables", m1("K", w), "only", l(<<w>>), "except", o(<<"refs", l(<<w>>), "variables", l(<<w>>), "changes", l(<<w>>)>>),
        "tags", l(<<w>>), "artifacts", m1("paths", l(<<w>>)), "allow_failure", on, "when", w>>), "k", o(<<"stage", str("v"), "script", w, "only", o(<<"refs", l(<<w>>)>>)>>)>>),
  bitbucket |-> o(<<"image", o(<<"name", w, "username", w>>), "clone", m1("depth", int(1)), "options", m1("docker", on), "definitions", o(<<"caches", m1("k", w), "services", m1("d", o(<<"image", w, "environment", m1("K", w), "variables", m1("K", w)>>))>>),
    "pipelines", o(<<"default", l(<<m1("step", o(<<"name", w, "image", w, "script", l(<<w>>), "services", l(<<w>>), "caches", l(<<w>>), "trigger", w>>)), m1("parallel", l(<<m1("step", m1("script", l(<<w>>)))>>))>>),
      "branches", m1("master", l(<<m1("step", m2("script", l(<<w>>), "image", m1("name", w)))>>)), "tags", m1("*", l(<<m1("step", m1("script", w))>>)), "pull-requests", m1("**", l(<<m1("step", m1("script", l(<<w>>)))>>))>>)>>)]

Shape_(h) == CASE h = "null" -> nul [] h = "text" -> w [] h = "empty" -> str("") [] h = "int" -> int(1) [] h = "list" -> l(<<>>) [] h = "map" -> map(<<>>) [] h = "[null]" -> l(<<nul>>) [] h = "[[]]" -> l(<<l(<<>>)>>)
             [] h = "[{}]" -> l(<<map(<<>>)>>) [] h = "[text]" -> l(<<w>>) [] h = "{null}" -> m1("k", nul) [] h = "{text}" -> m1("k", w) [] h = "{[null]}" -> m1("k", l(<<nul>>)) [] h = "{{}}" -> m1("k", map(<<>>)) [] h = "{map}" -> m1("k", m1("k", nul))
\* all places of a tree
Kids(t) == IF t.t = "seq" THEN Len(t.v) ELSE IF t.t = "map" THEN Len(t.v) ELSE 0
Kid(t, i) == IF t.t = "seq" THEN t.v[i] ELSE t.v[i].v
RECURSIVE Places(_)
Places(t) == {<<>>} \cup UNION {{<<i>> \o p : p \in Places(Kid(t, i))} : i \in 1..Kids(t)}
RECURSIVE Put(_, _, _)
Put(t, p, x) == IF p = <<>> THEN x ELSE [t EXCEPT !.v[p[1]] = IF t.t = "seq" THEN Put(t.v[p[1]], Tail(p), x) ELSE [t.v[p[1]] EXCEPT !.v = Put(@, Tail(p), x)]]
RECURSIVE Drop(_, _)
Drop(t, p) == IF Len(p) = 1 THEN [t EXCEPT !.v = SubSeq(t.v, 1, p[1] - 1) \o SubSeq(t.v, p[1] + 1, Len(t.v))]
              ELSE [t EXCEPT !.v[p[1]] = IF t.t = "seq" THEN Drop(t.v[p[1]], Tail(p)) ELSE [t.v[p[1]] EXCEPT !.v = Drop(@, Tail(p))]]
RECURSIVE After(_, _)
\* places are damaged left to right
After(p, q) == q # <<>> /\ (p = <<>> \/ p[1] > q[1] \/ (p[1] = q[1] /\ After(Tail(p), Tail(q))))
Init == name \in Names /\ doc = Skeletons[name] /\ holes = <<>>
Damage(p, h) == doc' = (IF h = "gone" THEN Drop(doc, p) ELSE Put(doc, p, Shape_(h))) /\ holes' = Append(holes, [at |-> p, hole |-> h])
Next == /\ Len(holes) < MaxHoles /\ UNCHANGED name
        /\ \E p \in Places(doc), h \in Holes : (h = "gone" => p # <<>>) /\ (holes # <<>> => After(holes[Len(holes)].at, p)) /\ Damage(p, h)
Spec == Init /\ [][Next]_vars
\* the kind is where the specification begins
OnlyNull == \A i \in 1..Len(holes) : holes[i].hole \in {"null", "gone"} /\ holes[i].at # <<>> /\ holes[i].at # <<1>>
Native == name \in {"pipeline", "cron", "secret", "registry", "signature"}
NullFits == Native /\ OnlyNull => FitsResource(doc)
NullPlan == name = "pipeline" /\ OnlyNull =>
  LET p == Pipeline(doc) pl == Plan(p, [creds |-> "", usedind |-> FALSE, dind |-> <<>>, host |-> "", hostmount |-> FALSE]) IN
  /\ Len(pl.steps) = (IF Cloned(p) THEN 1 ELSE 0) + Len(Live(p.services)) + Len(Live(p.steps))
  /\ AcceptTrusted(p) \in BOOLEAN
Emit == Len(holes) < MaxHoles \/ PrintT(ToJson([name |-> name, doc |-> doc, holes |-> holes]))
=============================================================================
