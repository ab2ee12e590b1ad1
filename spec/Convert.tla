------------------------------- MODULE Convert -------------------------------
(***************************************************************************)
(* Foreign and legacy configurations turned into native resources           *)
(* (yaml/converter).  Documents are trees, results the records of Resource. *)
(***************************************************************************)
EXTENDS Format, Glob, ImageRef

\* ---- byte order of (ASCII) strings ----
RECURSIVE Less(_, _)
Less(a, b) == IF Len(b) = 0 THEN FALSE ELSE IF Len(a) = 0 THEN TRUE
              ELSE IF Ch(a, 1) = Ch(b, 1) THEN Less(From(a, 2), From(b, 2)) ELSE Ord(Ch(a, 1)) < Ord(Ch(b, 1))
Sorted(S) == SetToSortSeq(S, Less)
Keys(t) == IF IsMap(t) THEN {t.v[n].k : n \in 1..Len(t.v)} ELSE {}
ListOrOne(t) == IF IsNull(t) THEN <<>> ELSE IF IsScalar(t) THEN <<Str(t)>> ELSE List(t)
NoTree == [t |-> "map", v |-> <<>>]
NoContainer == Container(NoTree)
NoPipeline == [Pipeline(NoTree) EXCEPT !.kind = "pipeline"]

\* ---- which format ----
IsSpace(c) == c \in {" ", "\t", "\r", "\f"}
PipelineLine(l) == HasPrefix(l, "pipeline:") /\ AllCh(From(l, 10), IsSpace)
IsLegacy(lines) == \E n \in 1..Len(lines) : PipelineLine(lines[n])
Dispatch(filename, lines) ==
  CASE filename = "bitbucket-pipelines.yml" -> "bitbucket"
    [] filename = ".gitlab-ci.yml" -> "gitlab"
    [] OTHER -> IF IsLegacy(lines) THEN "legacy" ELSE "native"

\* ---- matrix ----
MaxAxes == 12
MaxCombinations == 27
MatrixInclude(m) == LET l == F(m, "include") IN IF IsSeq(l) THEN MapSeq(l.v, StrMap) ELSE <<>>
\* combinations in order: the last of the sorted axes varies fastest
RECURSIVE Product(_, _, _)
Product(vals, axes, cap) ==
  IF axes = <<>> THEN <<Empty>>
  ELSE LET q == TLCEval(Product(vals, Tail(axes), cap))
           a == Head(axes)
           n == Len(vals[a]) * Len(q) IN
       TLCEval([i \in 1..(IF n < cap THEN n ELSE cap) |-> Over([k \in {a} |-> vals[a][1 + ((i - 1) \div Len(q))]], q[1 + ((i - 1) % Len(q))])])
Axes(m) ==
  IF ~IsMap(m) THEN <<>>
  ELSE IF MatrixInclude(m) # <<>> THEN MatrixInclude(m)
  ELSE LET K == {k \in Keys(m) : List(F(m, k)) # <<>>}
           s == Sorted(K) IN
       IF K = {} THEN <<>> ELSE Product(TLCEval([k \in K |-> List(F(m, k))]), SubSeq(s, 1, IF Len(s) < MaxAxes THEN Len(s) ELSE MaxAxes), MaxCombinations)
\* every ${KEY} replaced by its value
RECURSIVE SubstAll(_, _, _)
SubstAll(s, ks, ax) == IF ks = <<>> THEN s ELSE SubstAll(StrReplace(s, "${" \o Head(ks) \o "}", ax[Head(ks)]), Tail(ks), ax)
Subst(s, ax) == IF HasSub(s, "${") THEN SubstAll(s, Sorted(DOMAIN ax), ax) ELSE s
SubstList(q, ax) == MapSeq(q, LAMBDA s : Subst(s, ax))
SubstCond(c, ax) == [include |-> SubstList(c.include, ax), exclude |-> SubstList(c.exclude, ax)]
SubstConds(w, ax) == TLCEval([k \in DOMAIN w |-> IF k = "matrix" THEN w[k] ELSE SubstCond(w[k], ax)])
RECURSIVE SubstTree(_, _)
SubstTree(t, ax) == CASE t.t = "str" -> [t EXCEPT !.s = Subst(@, ax)]
                      [] t.t = "seq" -> [t EXCEPT !.v = MapSeq(@, LAMBDA x : SubstTree(x, ax))]
                      [] t.t = "map" -> [t EXCEPT !.v = TLCEval([k \in DOMAIN @ |-> SubstTree(@[k], ax)])]
                      [] OTHER -> t
SubstContainer(c, ax) ==
  [c EXCEPT !.image = Subst(@, ax), !.name = Subst(@, ax), !.command = SubstList(@, ax), !.commands = SubstList(@, ax), !.entrypoint = SubstList(@, ax),
            !.dns = SubstList(@, ax), !.dns_search = SubstList(@, ax), !.extra_hosts = SubstList(@, ax), !.when = SubstConds(@, ax),
            !.environment = TLCEval([k \in DOMAIN @ |-> [@[k] EXCEPT !.s = Subst(@, ax)]]), !.settings = TLCEval([k \in DOMAIN @ |-> [@[k] EXCEPT !.v = SubstTree(@, ax), !.s = Subst(@, ax)]]),
            !.volumes = MapSeq(@, LAMBDA v : [v EXCEPT !.name = Subst(@, ax), !.path = Subst(@, ax)])]
SubstPipeline(p, ax) == [p EXCEPT !.steps = MapSeq(@, LAMBDA c : SubstContainer(c, ax)), !.services = MapSeq(@, LAMBDA c : SubstContainer(c, ax)),
                                  !.trigger = SubstConds(@, ax), !.workspace = [base |-> Subst(@.base, ax), path |-> Subst(@.path, ax)]]
Chosen(c, ax) == \A k \in DOMAIN c.when.matrix : k \in DOMAIN ax /\ ax[k] = c.when.matrix[k]
WithAxis(p, ax) == SubstPipeline([p EXCEPT !.steps = SelectSeq(@, LAMBDA c : Chosen(c, ax)), !.services = SelectSeq(@, LAMBDA c : Chosen(c, ax))], ax)

\* ---- legacy ----
LegacyKnown == {"command", "commands", "detach", "devices", "allow_failure", "tmpfs", "dns", "dns_search", "entrypoint", "environment", "extra_hosts",
                "image", "name", "privileged", "pull", "shell", "volumes", "secrets", "when"}
LCond(t) == IF IsMap(t) THEN [include |-> ListOrOne(F(t, "include")), exclude |-> ListOrOne(F(t, "exclude"))] ELSE [include |-> ListOrOne(t), exclude |-> <<>>]
Promote(q) == MapSeq(q, LAMBDA s : IF s \in {"deploy", "deployment"} THEN "promote" ELSE s)
LConds(t) ==
  LET same == {"ref", "repo", "instance", "branch", "status"}
      ev == LCond(F(t, "event")) IN
  TLCEval([k \in CondKeys \cup {"matrix"} |->
     CASE k \in same -> LCond(F(t, k))
       [] k = "target" -> LCond(F(t, "environment"))
       [] k = "event" -> [include |-> Promote(ev.include), exclude |-> Promote(ev.exclude)]
       [] k = "matrix" -> StrMap(F(t, k))
       [] OTHER -> LCond(Nil)])
\* environment: a mapping, or a list of K=V
LEnv(t) == IF IsMap(t) THEN StrMap(t)
           ELSE LET q == List(t) I == {n \in 1..Len(q) : HasSub(q[n], "=")} key(n) == SubSeq(q[n], 1, Index(q[n], "=") - 1) IN
                [k \in {key(n) : n \in I} |-> LET n == Max({n \in I : key(n) = k}) IN From(q[n], Index(q[n], "=") + 1)]
\* secrets: names, or pairs of source and target
LSecrets(t) == IF ~IsSeq(t) THEN <<>>
               ELSE MapSeq(SelectSeq(t.v, LAMBDA x : ~IsNull(x)), LAMBDA x : IF IsMap(x) THEN [source |-> Str(F(x, "source")), target |-> Str(F(x, "target"))] ELSE [source |-> Str(x), target |-> Str(x)])
LEnviron(t) ==
  LET s == LSecrets(F(t, "secrets"))
      names == {Upper(s[n].target) : n \in 1..Len(s)} IN
  Over([k \in DOMAIN LEnv(F(t, "environment")) |-> [t |-> "lit", s |-> LEnv(F(t, "environment"))[k]]],
       [k \in names |-> [t |-> "secret", s |-> s[Max({n \in 1..Len(s) : Upper(s[n].target) = k})].source]])
\* a mount is known by the path it has on the host
LMounts(t) == IF ~IsSeq(t) THEN <<>>
              ELSE MapSeq(SelectSeq(t.v, LAMBDA x : ~IsNull(x)), LAMBDA x : LET q == Split(Str(x), ":") IN [nil |-> FALSE, name |-> IF Len(q) = 1 THEN "" ELSE q[1], path |-> IF Len(q) = 1 THEN q[1] ELSE q[2]])
LContainer(name, t) ==
  [NoContainer EXCEPT !.name = name, !.image = Str(F(t, "image")), !.detach = Bool(F(t, "detach")), !.privileged = Bool(F(t, "privileged")),
     !.command = ListOrOne(F(t, "command")), !.commands = ListOrOne(F(t, "commands")), !.entrypoint = ListOrOne(F(t, "entrypoint")),
     !.dns = ListOrOne(F(t, "dns")), !.dns_search = ListOrOne(F(t, "dns_search")), !.extra_hosts = List(F(t, "extra_hosts")),
     !.pull = IF Bool(F(t, "pull")) THEN "always" ELSE "if-not-exists", !.environment = LEnviron(t), !.volumes = LMounts(F(t, "volumes")),
     !.when = LConds(F(t, "when")), !.settings = TLCEval([k \in Keys(t) \ LegacyKnown |-> Setting(F(t, k))])]
LContainers(t) == IF IsMap(t) THEN MapSeq(t.v, LAMBDA e : LContainer(e.k, e.v)) ELSE <<>>
DefaultClone == [NoContainer EXCEPT !.name = "clone", !.image = "plugins/git", !.pull = "if-not-exists"]
\* /base/path, where path . is base
WsJoin(a, b) == IF b \in {"", "."} THEN a ELSE a \o "/" \o b
\* url: [set, host, path] of the repository
UrlPath(url) == IF url.host = "" THEN "src" ELSE "src/" \o url.host \o "/" \o url.path
LWorkspace(w, url, envs) ==
  LET base == Str(F(w, "base")) path == Str(F(w, "path")) IN
  IF "kubernetes" \in envs
  THEN [base |-> "", path |-> WsJoin(IF base # "" THEN base ELSE "/drone", IF path # "" THEN path ELSE UrlPath(url))]
  ELSE LET p == IF path = "." THEN "" ELSE path IN
       IF ~url.set THEN [base |-> base, path |-> p]
       ELSE [base |-> IF base = "" THEN "/drone" ELSE base, path |-> IF p = "" THEN UrlPath(url) ELSE p]
LTrigger(b, steps) ==
  LET c == LCond(b) IN
  IF c.include # <<>> /\ c.exclude = <<>>
  THEN [LConds(Nil) EXCEPT !.ref.include = <<"refs/pull/**", "refs/pull-requests/**", "refs/merge-requests/**">> \o MapSeq(c.include, LAMBDA x : "refs/heads/" \o x)
                                            \o (IF \E n \in 1..Len(steps) : "tag" \in Elems(steps[n].when.event.include) THEN <<"refs/tags/**">> ELSE <<>>)]
  ELSE [LConds(Nil) EXCEPT !.branch = c]
LSecret(name, t) ==
  [Secret(NoTree) EXCEPT !.kind = "secret", !.name = name,
     !.get = IF Str(F(t, "driver")) = "vault" THEN [path |-> Str(F(F(t, "driver_opts"), "path")), name |-> Str(F(F(t, "driver_opts"), "key")), key |-> ""]
             ELSE [path |-> IF Str(F(t, "path")) # "" THEN Str(F(t, "path")) ELSE Str(F(t, "vault")), name |-> "", key |-> ""]]
Legacy(t, url, envs) ==
  LET clone == LContainers(F(t, "clone"))
      steps == (IF clone # <<>> THEN clone ELSE IF "clone" \in envs THEN <<DefaultClone>> ELSE <<>>) \o LContainers(F(t, "pipeline"))
      p == [NoPipeline EXCEPT !.type = IF "kubernetes" \in envs THEN "kubernetes" ELSE "", !.workspace = LWorkspace(F(t, "workspace"), url, envs),
              !.clone = [depth |-> 0, skip_verify |-> FALSE, disable |-> clone # <<>> \/ "clone" \in envs], !.steps = steps, !.services = LContainers(F(t, "services")),
              !.trigger = LTrigger(F(t, "branches"), steps), !.pull_secrets = IF "pull" \in envs THEN <<".dockerconfigjson">> ELSE <<>>]
      ax == IF IsNull(F(t, "matrix")) THEN <<>> ELSE Axes(F(t, "matrix"))
      sec == F(t, "secrets") IN
  [pipelines |-> IF ax = <<>> THEN <<p>> ELSE MapSeq(ax, LAMBDA a : WithAxis(p, a)),
   matrix |-> ax # <<>>,
   secrets |-> MapSeq(Sorted(Keys(sec)), LAMBDA k : LSecret(k, F(sec, k)))]

\* ---- GitLab ----
GReserved == {"image", "stages", "services", "variables", "before_script", "after_script", "cache"}
GImage(t) == IF IsScalar(t) THEN [name |-> Str(t), alias |-> "", entrypoint |-> <<>>, command |-> <<>>]
             ELSE [name |-> Str(F(t, "name")), alias |-> Str(F(t, "alias")), entrypoint |-> ListOrOne(F(t, "entrypoint")), command |-> ListOrOne(F(t, "command"))]
\* a name with a dot is a template
GJobs(t) == Sorted({k \in Keys(t) \ GReserved : ~IsNull(F(t, k)) /\ ~HasPrefix(k, ".")})
GStage(j) == IF Str(F(j, "stage")) = "" THEN "test" ELSE Str(F(j, "stage"))
GScript(t, j) == ListOrOne(F(t, "before_script")) \o ListOrOne(F(j, "before_script")) \o ListOrOne(F(j, "script")) \o ListOrOne(F(j, "after_script")) \o ListOrOne(F(t, "after_script"))
GStep(t, name) ==
  LET j == F(t, name)
      own == GImage(F(j, "image"))
      im == IF own.name # "" THEN own ELSE GImage(F(t, "image")) IN
  [NoContainer EXCEPT !.name = name, !.image = im.name, !.command = im.command, !.entrypoint = im.entrypoint, !.commands = GScript(t, j),
                      !.failure = IF Bool(F(j, "allow_failure")) THEN "ignore" ELSE ""]
GService(x) == LET im == GImage(x) IN [NoContainer EXCEPT !.name = im.alias, !.image = im.name, !.command = im.command, !.entrypoint = im.entrypoint]
GServices(t) == LET s == F(t, "services") IN IF IsSeq(s) THEN MapSeq(SelectSeq(s.v, LAMBDA x : ~IsNull(x)), GService) ELSE <<>>
Gitlab(t) ==
  LET jobs == GJobs(t)
      own == List(F(t, "stages")) = <<>>
      stages == IF own THEN jobs ELSE List(F(t, "stages"))
      of(s) == SelectSeq(jobs, LAMBDA n : IF own THEN n = s ELSE GStage(F(t, n)) = s) IN
  [n \in 1..Len(stages) |-> [NoPipeline EXCEPT !.name = stages[n], !.steps = MapSeq(of(stages[n]), LAMBDA j : GStep(t, j)), !.services = GServices(t),
                                               !.depends_on = IF n = 1 THEN <<>> ELSE <<stages[n - 1]>>]]

\* ---- Bitbucket ----
\* entries are steps, or groups of steps that may run in parallel
BEntry(x) == LET par == F(x, "parallel") IN <<F(x, "step")>> \o (IF IsSeq(par) THEN MapSeq(par.v, LAMBDA y : F(y, "step")) ELSE <<>>)
BStage(t) == IF IsSeq(t) THEN SelectSeq(Flat(MapSeq(t.v, BEntry)), LAMBDA x : ~IsNull(x)) ELSE <<>>
BContainer(x) == [NoContainer EXCEPT !.name = Str(F(x, "name")), !.image = Str(F(x, "image")), !.commands = List(F(x, "script")),
                                     !.environment = LET m == StrMap(F(x, "variables")) IN [k \in DOMAIN m |-> [t |-> "lit", s |-> m[k]]]]
\* a pattern of the same number of segments, each matching
PathMatch(p, s) == LET ps == SplitPlain(p, "/") ns == Split(s, "/") IN Len(ps) = Len(ns) /\ \A n \in 1..Len(ps) : SegMatch(ps[n], ns[n])
\* the patterns of kind that match the ref without its prefix
BHits(t, kind, prefix, ref) == LET m == F(F(t, "pipelines"), kind) IN SelectSeq(Sorted(Keys(m)), LAMBDA p : PathMatch(p, TrimPrefix(ref, prefix)))
BPipeline(t, ref) ==
  LET p == F(t, "pipelines")
      tag == BHits(t, "tags", "refs/tags/", ref) br == BHits(t, "branches", "refs/heads/", ref) IN
  BStage(IF tag # <<>> THEN F(F(p, "tags"), Head(tag)) ELSE IF br # <<>> THEN F(F(p, "branches"), Head(br)) ELSE F(p, "default"))
Bitbucket(t, ref) ==
  LET st == BPipeline(t, ref)
      step(n) == LET c == BContainer(st[n]) IN
                 [c EXCEPT !.image = IF @ = "" THEN Str(F(t, "image")) ELSE @, !.name = IF @ = "" THEN "step_" \o ToString(n - 1) ELSE @]
      sv == F(F(t, "definitions"), "services")
      names == Sorted({k \in Keys(sv) : ~IsNull(F(sv, k))}) IN
  [NoPipeline EXCEPT !.clone = [disable |-> FALSE, depth |-> Int_(F(F(t, "clone"), "depth")), skip_verify |-> FALSE],
                     !.steps = [n \in 1..Len(st) |-> step(n)], !.services = MapSeq(names, LAMBDA k : [BContainer(F(sv, k)) EXCEPT !.name = k])]

\* ---- files that cannot be read ----
\* shapes that no reading of a field admits; null is an absent value
NotStr(t) == IsMap(t) \/ IsSeq(t)
NotMap(t) == IsSeq(t) \/ (IsScalar(t) /\ ~IsNull(t))
NotList(t) == IsMap(t) \/ (IsScalar(t) /\ ~IsNull(t)) \/ (IsSeq(t) /\ \E n \in 1..Len(t.v) : NotStr(t.v[n]))
NotStrs(t) == IsMap(t) \/ (IsSeq(t) /\ \E n \in 1..Len(t.v) : NotStr(t.v[n]))
Vals_(t) == IF IsMap(t) THEN {t.v[n].v : n \in 1..Len(t.v)} ELSE {}
Items(t) == IF IsSeq(t) THEN Elems(t.v) ELSE {}
AnyOf(t, K, P_(_)) == \E k \in K : P_(F(t, k))
NotCond(t) == IF IsMap(t) THEN AnyOf(t, {"include", "exclude"}, NotStrs) ELSE NotStrs(t)
NotWhen(t) == NotMap(t) \/ AnyOf(t, {"ref", "repo", "instance", "environment", "event", "branch", "status"}, NotCond) \/ NotMap(F(t, "matrix"))
NotEnv(t) == IF IsMap(t) THEN \E x \in Vals_(t) : NotStr(x) ELSE NotList(t)
NotSecrets(t) == IsMap(t) \/ (IsScalar(t) /\ ~IsNull(t)) \/ \E x \in Items(t) : IsSeq(x) \/ AnyOf(x, {"source", "target"}, NotStr)
NotContainer(t) ==
  NotMap(t) \/ AnyOf(t, {"image", "detach", "privileged", "pull"}, NotStr) \/ AnyOf(t, {"command", "commands", "entrypoint", "dns", "dns_search"}, NotStrs)
  \/ AnyOf(t, {"extra_hosts", "volumes"}, NotList) \/ NotEnv(F(t, "environment")) \/ NotSecrets(F(t, "secrets")) \/ NotWhen(F(t, "when"))
\* (a list of containers is read as containers without a name, which the linter rejects)
NotContainers(t) == (IsScalar(t) /\ ~IsNull(t)) \/ \E x \in Vals_(t) : NotContainer(x)
NotLegacy(t) ==
  NotMap(t) \/ NotMap(F(t, "workspace")) \/ AnyOf(F(t, "workspace"), {"base", "path"}, NotStr) \/ AnyOf(t, {"clone", "pipeline", "services"}, NotContainers)
  \/ NotCond(F(t, "branches")) \/ NotMap(F(t, "secrets"))
  \/ \E x \in Vals_(F(t, "secrets")) : NotMap(x) \/ AnyOf(x, {"driver", "path", "vault"}, NotStr) \/ NotMap(F(x, "driver_opts")) \/ \E y \in Vals_(F(x, "driver_opts")) : NotStr(y)
NotImage(t) == IsSeq(t) \/ AnyOf(t, {"name", "alias"}, NotStr) \/ AnyOf(t, {"entrypoint", "command"}, NotStrs)
NotJob(t) == NotMap(t) \/ AnyOf(t, {"stage", "allow_failure"}, NotStr) \/ AnyOf(t, {"script", "before_script", "after_script"}, NotStrs) \/ NotImage(F(t, "image"))
NotGitlab(t) ==
  NotMap(t) \/ NotList(F(t, "stages")) \/ NotImage(F(t, "image")) \/ AnyOf(t, {"before_script", "after_script"}, NotStrs)
  \/ IsMap(F(t, "services")) \/ (IsScalar(F(t, "services")) /\ ~IsNull(F(t, "services"))) \/ (\E x \in Items(F(t, "services")) : NotImage(x))
  \/ \E k \in Keys(t) \ GReserved : ~HasPrefix(k, ".") /\ NotJob(F(t, k))
NotStep(t) == NotMap(t) \/ AnyOf(t, {"name", "image"}, IsSeq) \/ NotList(F(t, "script"))
NotSteps(t) == IsMap(t) \/ (IsScalar(t) /\ ~IsNull(t)) \/ \E x \in Items(t) : NotMap(x) \/ NotStep(F(x, "step"))
NotBitbucket(t) ==
  LET p == F(t, "pipelines") IN
  NotMap(t) \/ IsSeq(F(t, "image")) \/ NotMap(F(t, "clone")) \/ NotStr(F(F(t, "clone"), "depth")) \/ NotMap(p) \/ NotSteps(F(p, "default"))
  \/ (\E k \in {"tags", "branches"} : NotMap(F(p, k)) \/ \E x \in Vals_(F(p, k)) : NotSteps(x))
  \/ NotMap(F(t, "definitions")) \/ NotMap(F(F(t, "definitions"), "services")) \/ \E x \in Vals_(F(F(t, "definitions"), "services")) : NotStep(x)
Unreadable(format, t) == CASE format = "legacy" -> NotLegacy(t) [] format = "gitlab" -> NotGitlab(t) [] format = "bitbucket" -> NotBitbucket(t) [] OTHER -> FALSE
=============================================================================
