------------------------------ MODULE JConvert ------------------------------
(* Observed conversions against Convert.tla.                                 *)
EXTENDS Convert

\* mounts known by the host path of the volume they name
HostOf(p, name) == LET I == {n \in 1..Len(p.volumes) : p.volumes[n].name = name} IN IF Cardinality(I) = 1 THEN p.volumes[CHOOSE n \in I : TRUE].host.path ELSE "?" \o name
Resolved(p) == LET onc(c) == [c EXCEPT !.volumes = MapSeq(@, LAMBDA v : [v EXCEPT !.name = HostOf(p, @)])] IN [p EXCEPT !.steps = MapSeq(@, onc), !.services = MapSeq(@, onc)]
Hosts(p) == {p.volumes[n].host.path : n \in 1..Len(p.volumes)}
HostMounts(p) == UNION {{c.volumes[n].name : n \in 1..Len(c.volumes)} : c \in Elems(p.steps) \cup Elems(p.services)}
CDiff(who, a, b) == {who \o "_" \o f : f \in {f \in DOMAIN b \ {"name"} : f \notin DOMAIN a \/ a[f] # b[f]}}
CsDiff(who, a, b) == IF Len(a) # Len(b) THEN {who \o "_count"} ELSE UNION {IF a[n].nil THEN {who \o "_nil"} ELSE CDiff(who, a[n], b[n]) : n \in 1..Len(b)}
Names(q) == MapSeq(q, LAMBDA c : c.name)
SetCond(c) == [include |-> Elems(c.include), exclude |-> Elems(c.exclude)]
SetConds(w) == [k \in DOMAIN w |-> IF k = "matrix" THEN w[k] ELSE SetCond(w[k])]
\* a pipeline against another, but for names and volumes
PDiff(a, b0) ==
  LET b == FmtNorm(b0) IN
  IF a.r # "pipeline" THEN {"type"}
  ELSE CsDiff("step", a.steps, b.steps) \cup CsDiff("service", a.services, b.services)
       \cup UNION {Label(a[f] = b[f], f) : f \in {"kind", "type", "clone", "workspace", "pull_secrets", "platform", "depends_on", "node", "concurrency"}}
       \cup Label(SetConds(a.trigger) = SetConds(b.trigger), "trigger")
\* step names: distinct; as they were when they were distinct
NameDiff(a, b) == Label(Distinct(Names(a)), "names") \cup Label(Distinct(Names(b)) => Names(a) = Names(b), "names")
                  \cup Label(Len(a) # Len(b) \/ \A n \in 1..Len(b) : HasPrefix(a[n].name, b[n].name), "names")
LegacyDiff(res, want) ==
  LET P == Len(want.pipelines) S == Len(want.secrets) IN
  IF Len(res) # P + S THEN {"count"}
  ELSE UNION {LET a == Resolved(res[n]) b == want.pipelines[n] IN
              PDiff(a, b) \cup Label(Distinct(Names(a.services)) \/ ~Distinct(Names(b.services)), "names")
                \cup Label(Names(a.services) = Names(b.services), "service_names")
                \* with a matrix, uniqueness comes before the choice of steps
                \cup (IF want.matrix THEN Label(Distinct(Names(a.steps)), "names") ELSE NameDiff(a.steps, b.steps))
                \cup Label(HostMounts(b) \subseteq Hosts(a) /\ (\A v \in Elems(a.volumes) : v.host.set /\ ~v.temp.set), "volumes")
                \cup Label(Distinct(MapSeq(a.volumes, LAMBDA v : v.name)) /\ Cardinality(Hosts(a)) = Len(a.volumes), "volume_twice")
                \cup Label(want.matrix \/ Hosts(a) = HostMounts(b), "volumes") : n \in 1..P}
       \cup Label(want.matrix => Distinct(MapSeq(SubSeq(res, 1, P), LAMBDA p : p.name)), "pipeline_names")
       \cup Label(\A n \in 1..S : LET a == res[P + n] b == want.secrets[n] IN a.r = "secret" /\ a.name = b.name /\ a.get = b.get /\ a.data = "" /\ a.kind = "secret", "secrets")
GitlabDiff(res, want) ==
  IF Len(res) # Len(want) THEN {"count"}
  ELSE UNION {LET a == res[n] b == want[n] IN
              PDiff(a, b) \cup Label(a.name = b.name, "stage") \cup Label(Names(a.steps) = Names(b.steps), "names")
                \cup Label(\A k \in 1..Len(b.services) : a.services[k].name # "" /\ (b.services[k].name = "" \/ a.services[k].name = b.services[k].name), "service_names")
                \cup Label(a.volumes = <<>>, "volumes") : n \in 1..Len(want)}
BitbucketDiff(res, want) ==
  IF Len(res) # 1 THEN {"count"}
  ELSE PDiff(res[1], want) \cup Label(Names(res[1].steps) = Names(want.steps), "names") \cup Label(Names(res[1].services) = Names(want.services), "service_names")
       \cup Label(res[1].volumes = <<>>, "volumes")

\* c: filename, lines (of the text), and for the formats: doc, url, envs, ref; hurt: the document was damaged and may be unreadable
VConvert(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE LET f == Dispatch(c.filename, c.lines) IN
    Label(c.o.kept, "input_changed") \cup Label(c.o.match = IsLegacy(c.lines), "match") \cup Label(c.o.repeats, "repeats")
    \cup IF f = "native" THEN Label(c.o.ok, "rejected") \cup (IF c.o.ok THEN Label(c.o.same, "touched") ELSE {})
         ELSE IF ~Has(c, "doc") THEN (IF c.o.ok THEN Label(c.o.valid, "invalid") \cup Label(c.o.fixpoint, "not_fixpoint") \cup Label(~c.o.same \/ c.o.valid, "invalid") ELSE {})
         ELSE IF Has(c, "hurt") /\ (c.hurt = "syntax" \/ Unreadable(f, c.doc)) THEN Label(~c.o.ok, f \o "_accepted")
         ELSE IF Has(c, "hurt") THEN {}
         ELSE IF ~c.o.ok THEN {f \o "_rejected"}
         ELSE IF ~c.o.valid THEN {"invalid"}
         ELSE Label(c.o.fixpoint, "not_fixpoint")
              \cup {f \o "_" \o x : x \in CASE f = "legacy" -> LegacyDiff(c.o.res, Legacy(c.doc, c.urlset, Elems(c.envs)))
                                          [] f = "gitlab" -> GitlabDiff(c.o.res, Gitlab(c.doc))
                                          [] f = "bitbucket" -> BitbucketDiff(c.o.res, Bitbucket(c.doc, c.ref))}
\* c.doc: a file with a matrix; c.o.axes
VMatrix(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN {"matrix_rejected"}
  ELSE LET want == Axes(F(c.doc, "matrix")) got == c.o.axes IN
       Label(c.o.repeats, "repeats")
       \cup (IF MatrixInclude(F(c.doc, "matrix")) # <<>> THEN Label(got = want, "matrix_include")
             ELSE Label(Len(got) = Len(want), "matrix_count") \cup Label(Distinct(got) \/ ~Distinct(want), "matrix_twice") \cup Label(Elems(got) = Elems(want), "matrix_combinations")
                  \cup Label(got = want, "matrix_order"))
=============================================================================
