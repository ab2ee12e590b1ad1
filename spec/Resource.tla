------------------------------ MODULE Resource ------------------------------
(***************************************************************************)
(* From a YAML document (a tree) to a typed resource: yaml/pipeline.go and  *)
(* the short/long spellings of yaml/{build,push,port,env,param,cond,unit}.  *)
(* Trees: [t |-> "str"|"int"|"bool"|"float"|"null", s |-> text, ..],        *)
(* [t |-> "seq", v |-> <<trees>>], [t |-> "map", v |-> <<[k,y,q,v]..>>].    *)
(* FitsX(t): tree t has a shape that field type X accepts.  X(t): its value.*)
(***************************************************************************)
EXTENDS Util

Nil == [t |-> "null", s |-> ""]
IsNull(t) == t.t = "null"
IsScalar(t) == t.t \in {"str", "int", "bool", "float", "null"}
IsSeq(t) == t.t = "seq"
IsMap(t) == t.t = "map"

\* the entry under key k (the last one wins), or null
F(m, k) ==
  IF ~IsMap(m) THEN Nil
  ELSE LET I == {i \in 1..Len(m.v) : m.v[i].k = k} IN
       IF I = {} THEN Nil ELSE m.v[Max(I)].v

FitsStr(t) == IsScalar(t)
Str(t) == IF IsNull(t) THEN "" ELSE t.s
FitsInt(t) == t.t \in {"null", "int"}
Int_(t) == IF t.t = "int" THEN t.n ELSE 0
FitsBool(t) == t.t \in {"null", "bool"}
Bool(t) == IF t.t = "bool" THEN t.b ELSE FALSE
FitsList(t) == IsNull(t) \/ (IsSeq(t) /\ \A i \in 1..Len(t.v) : FitsStr(t.v[i]))
List(t) == IF IsSeq(t) THEN MapSeq(t.v, Str) ELSE <<>>
FitsStrMap(t) == IsNull(t) \/ (IsMap(t) /\ \A i \in 1..Len(t.v) : FitsStr(t.v[i].v))
StrMap(t) ==
  IF ~IsMap(t) THEN Empty
  ELSE [k \in {t.v[i].k : i \in 1..Len(t.v)} |-> Str(F(t, k))]
\* cpu: a number
FitsNum(t) == t.t \in {"null", "int", "float"}
Num(t) == IF t.t = "null" THEN [s |-> "0", m |-> 0]
          ELSE IF t.t = "int" THEN [s |-> t.c, m |-> 1000 * t.n]
          ELSE [s |-> t.c, m |-> t.m]

\* ---- byte sizes: n * 1024^e, normalised so that 1024 does not divide n ----
RECURSIVE Norm(_, _)
Norm(n, e) == IF n = 0 THEN [n |-> 0, e |-> 0] ELSE IF n % 1024 = 0 THEN Norm(n \div 1024, e + 1) ELSE [n |-> n, e |-> e]
SizeZero == [n |-> 0, e |-> 0]
\* digits[.digits][ ][kKmMgGtTpP][iI][bB]
SizeSuffix(s) == LET a == TrimSuffix(TrimSuffix(s, "b"), "B")     \* at most one of them
                     b == IF Len(a) = Len(s) - 2 THEN TrimSuffix(s, "B") ELSE a
                     c == IF HasSuffix(b, "i") THEN TrimSuffix(b, "i") ELSE TrimSuffix(b, "I") IN c
UnitOf(c) == IF Len(c) = 0 THEN 0
             ELSE LET i == Index("kmgtp", LowerCh(Ch(c, Len(c)))) IN i
SizeDigits(s) ==
  LET c == SizeSuffix(s)
      d == IF UnitOf(c) > 0 THEN SubSeq(c, 1, Len(c) - 1) ELSE c IN TrimSuffix(d, " ")
\* accepted: an integer, or an integer followed by .5
HalfOf(d) == IF HasSuffix(d, ".5") THEN TrimSuffix(d, ".5") ELSE d
SizeOK(s) == LET d == SizeDigits(s) h == HalfOf(d) IN
             Len(h) > 0 /\ AllCh(h, IsDigit) /\ (h # d => UnitOf(SizeSuffix(s)) > 0)
SizeOf(s) == LET d == SizeDigits(s) h == HalfOf(d) e == UnitOf(SizeSuffix(s)) IN
             IF h = d THEN Norm(ToNat(h), e) ELSE Norm(ToNat(h) * 1024 + 512, e - 1)
FitsSize(t) == IsNull(t) \/ t.t = "int" \/ (t.t = "str" /\ SizeOK(t.s))
Size(t) == IF IsNull(t) THEN SizeZero
           ELSE IF t.t = "int" THEN Norm(t.n, 0) ELSE SizeOf(t.s)

\* ---- spellings ----
FitsBuild(t) == IsScalar(t) \/ (IsMap(t) /\ FitsStr(F(t, "image")) /\ FitsStr(F(t, "context"))
                /\ FitsStr(F(t, "dockerfile")) /\ FitsList(F(t, "cache_from"))
                /\ FitsStrMap(F(t, "args")) /\ FitsStrMap(F(t, "labels")))
Build(t) ==
  IF IsNull(t) THEN [set |-> FALSE, args |-> Empty, cache_from |-> <<>>, context |-> "", dockerfile |-> "", image |-> "", labels |-> Empty]
  ELSE IF IsScalar(t) THEN [set |-> TRUE, args |-> Empty, cache_from |-> <<>>, context |-> "", dockerfile |-> "", image |-> Str(t), labels |-> Empty]
  ELSE [set |-> TRUE, args |-> StrMap(F(t, "args")), cache_from |-> List(F(t, "cache_from")), context |-> Str(F(t, "context")),
        dockerfile |-> Str(F(t, "dockerfile")), image |-> Str(F(t, "image")), labels |-> StrMap(F(t, "labels"))]
FitsPush(t) == IsScalar(t) \/ (IsMap(t) /\ FitsStr(F(t, "image")))
Push(t) == IF IsNull(t) THEN [set |-> FALSE, image |-> ""]
           ELSE IF IsScalar(t) THEN [set |-> TRUE, image |-> Str(t)] ELSE [set |-> TRUE, image |-> Str(F(t, "image"))]
FitsPort(t) == FitsInt(t) \/ (IsMap(t) /\ FitsInt(F(t, "port")) /\ FitsInt(F(t, "host")) /\ FitsStr(F(t, "protocol")))
Port(t) == IF IsNull(t) THEN [nil |-> TRUE, port |-> 0, host |-> 0, protocol |-> ""]
           ELSE IF t.t = "int" THEN [nil |-> FALSE, port |-> t.n, host |-> 0, protocol |-> ""]
           ELSE [nil |-> FALSE, port |-> Int_(F(t, "port")), host |-> Int_(F(t, "host")), protocol |-> Str(F(t, "protocol"))]
\* environment variable: a literal, or a reference to a secret
FitsVar(t) == IsScalar(t) \/ (IsMap(t) /\ FitsStr(F(t, "value")) /\ FitsStr(F(t, "from_secret")))
Var(t) == IF IsNull(t) THEN [t |-> "nil", s |-> ""]
          ELSE IF IsScalar(t) THEN [t |-> "lit", s |-> Str(t)]
          ELSE IF Str(F(t, "from_secret")) # ""
               THEN [t |-> IF Str(F(t, "value")) = "" THEN "secret" ELSE "both", s |-> Str(F(t, "from_secret"))]
               ELSE [t |-> "lit", s |-> Str(F(t, "value"))]
\* opaque value
RECURSIVE Tree(_)
Tree(t) ==
  CASE t.t = "null" -> [t |-> "null"]
    [] t.t = "str"  -> [t |-> "str", s |-> t.s]
    [] t.t = "bool" -> [t |-> "bool", s |-> t.c]
    [] t.t \in {"int", "float"} -> [t |-> "num", s |-> t.c]
    [] t.t = "seq"  -> [t |-> "seq", v |-> MapSeq(t.v, Tree)]
    [] t.t = "map"  -> LET key(e) == e.y \o ":" \o (IF e.y = "s" THEN e.k ELSE e.q)
                           I == 1..Len(t.v) IN
                       [t |-> "map", v |-> [k \in {key(t.v[i]) : i \in I} |->
                                              Tree(t.v[Max({i \in I : key(t.v[i]) = k})].v)]]
\* setting: any value, or a reference to a secret
IsSecretRef(t) == IsMap(t) /\ IsScalar(F(t, "from_secret")) /\ Str(F(t, "from_secret")) # ""
Setting(t) == IF IsNull(t) THEN [t |-> "nil", s |-> "", v |-> [t |-> "null"]]
              ELSE IF IsSecretRef(t) THEN [t |-> "secret", s |-> Str(F(t, "from_secret")), v |-> [t |-> "null"]]
              ELSE [t |-> "val", s |-> "", v |-> Tree(t)]
\* condition: scalar, list, or include/exclude lists (themselves scalar or list)
FitsLst1(t) == IsScalar(t) \/ FitsList(t)
List1(t) == IF IsNull(t) THEN <<>> ELSE IF IsScalar(t) THEN <<Str(t)>> ELSE List(t)
FitsCond(t) == IsScalar(t) \/ FitsList(t) \/ (IsMap(t) /\ FitsLst1(F(t, "include")) /\ FitsLst1(F(t, "exclude")))
Cond(t) == IF IsNull(t) THEN [include |-> <<>>, exclude |-> <<>>]
           ELSE IF IsScalar(t) THEN [include |-> <<Str(t)>>, exclude |-> <<>>]
           ELSE IF IsSeq(t) THEN [include |-> List(t), exclude |-> <<>>]
           ELSE [include |-> List1(F(t, "include")), exclude |-> List1(F(t, "exclude"))]
CondKeys == {"action", "cron", "ref", "repo", "instance", "target", "event", "branch", "status", "paths"}
FitsConds(t) == IsNull(t) \/ (IsMap(t) /\ (\A k \in CondKeys : FitsCond(F(t, k))) /\ FitsStrMap(F(t, "matrix")))
Conds(t) == [k \in CondKeys \cup {"matrix"} |-> IF k = "matrix" THEN StrMap(F(t, k)) ELSE Cond(F(t, k))]

FitsResObj(t) == IsNull(t) \/ (IsMap(t) /\ FitsNum(F(t, "cpu")) /\ FitsSize(F(t, "memory")))
ResObj(t) == [set |-> ~IsNull(t), cpu |-> Num(F(t, "cpu")), memory |-> Size(F(t, "memory"))]
FitsResources(t) == IsNull(t) \/ (IsMap(t) /\ FitsResObj(F(t, "limits")) /\ FitsResObj(F(t, "requests")))
Resources(t) == [set |-> ~IsNull(t), limits |-> ResObj(F(t, "limits")), requests |-> ResObj(F(t, "requests"))]

FitsNamePath(t) == IsNull(t) \/ (IsMap(t) /\ FitsStr(F(t, "name")) /\ FitsStr(F(t, "path")))
NamePath(t) == [nil |-> IsNull(t), name |-> Str(F(t, "name")), path |-> Str(F(t, "path"))]
FitsSeqOf(t, P(_)) == IsNull(t) \/ (IsSeq(t) /\ \A i \in 1..Len(t.v) : P(t.v[i]))
ListOf(t, Op(_)) == IF IsSeq(t) THEN MapSeq(t.v, Op) ELSE <<>>
FitsMapOf(t, P(_)) == IsNull(t) \/ (IsMap(t) /\ \A i \in 1..Len(t.v) : P(t.v[i].v))
MapOf(t, Op(_)) == IF IsMap(t) THEN [k \in {t.v[i].k : i \in 1..Len(t.v)} |-> Op(F(t, k))] ELSE Empty

FitsAny(t) == TRUE
ContainerFields ==
  [build |-> "build", command |-> "list", commands |-> "list", detach |-> "bool", depends_on |-> "list",
   devices |-> "namepaths", dns |-> "list", dns_search |-> "list", entrypoint |-> "list", environment |-> "vars",
   extra_hosts |-> "list", failure |-> "str", image |-> "str", network_mode |-> "str", name |-> "str", ports |-> "ports",
   privileged |-> "bool", pull |-> "str", push |-> "push", resources |-> "resources", settings |-> "settings",
   shell |-> "str", user |-> "str", volumes |-> "namepaths", when |-> "conds", working_dir |-> "str"]
FitsField(y, t) ==
  CASE y = "str" -> FitsStr(t) [] y = "int" -> FitsInt(t) [] y = "bool" -> FitsBool(t) [] y = "list" -> FitsList(t)
    [] y = "strmap" -> FitsStrMap(t) [] y = "build" -> FitsBuild(t) [] y = "push" -> FitsPush(t)
    [] y = "ports" -> FitsSeqOf(t, FitsPort) [] y = "namepaths" -> FitsSeqOf(t, FitsNamePath)
    [] y = "vars" -> FitsMapOf(t, FitsVar) [] y = "settings" -> FitsMapOf(t, FitsAny)
    [] y = "resources" -> FitsResources(t) [] y = "conds" -> FitsConds(t)
FieldVal(y, t) ==
  CASE y = "str" -> Str(t) [] y = "int" -> Int_(t) [] y = "bool" -> Bool(t) [] y = "list" -> List(t)
    [] y = "strmap" -> StrMap(t) [] y = "build" -> Build(t) [] y = "push" -> Push(t)
    [] y = "ports" -> ListOf(t, Port) [] y = "namepaths" -> ListOf(t, NamePath)
    [] y = "vars" -> MapOf(t, Var) [] y = "settings" -> MapOf(t, Setting)
    [] y = "resources" -> Resources(t) [] y = "conds" -> Conds(t)

FitsContainer(t) == IsNull(t) \/ (IsMap(t) /\ \A f \in DOMAIN ContainerFields : FitsField(ContainerFields[f], F(t, f)))
Container(t) ==
  IF IsNull(t) THEN [nil |-> TRUE]
  ELSE LET V(f) == FieldVal(ContainerFields[f], F(t, f)) IN
  [nil |-> FALSE, build |-> V("build"), command |-> V("command"), commands |-> V("commands"), detach |-> V("detach"),
   depends_on |-> V("depends_on"), devices |-> V("devices"), dns |-> V("dns"), dns_search |-> V("dns_search"),
   entrypoint |-> V("entrypoint"), environment |-> V("environment"), extra_hosts |-> V("extra_hosts"), failure |-> V("failure"),
   image |-> V("image"), network |-> V("network_mode"), name |-> V("name"), ports |-> V("ports"), privileged |-> V("privileged"),
   pull |-> V("pull"), push |-> V("push"), resources |-> V("resources"), settings |-> V("settings"), shell |-> V("shell"),
   user |-> V("user"), volumes |-> V("volumes"), when |-> V("when"), working_dir |-> V("working_dir")]

FitsVolume(t) ==
  IsNull(t) \/ (IsMap(t) /\ FitsStr(F(t, "name"))
    /\ (IsNull(F(t, "temp")) \/ (IsMap(F(t, "temp")) /\ FitsStr(F(F(t, "temp"), "medium")) /\ FitsSize(F(F(t, "temp"), "size_limit"))))
    /\ (IsNull(F(t, "host")) \/ (IsMap(F(t, "host")) /\ FitsStr(F(F(t, "host"), "path")))))
Volume(t) ==
  [nil |-> IsNull(t), name |-> Str(F(t, "name")),
   temp |-> [set |-> ~IsNull(F(t, "temp")), medium |-> Str(F(F(t, "temp"), "medium")), size |-> Size(F(F(t, "temp"), "size_limit"))],
   host |-> [set |-> ~IsNull(F(t, "host")), path |-> Str(F(F(t, "host"), "path"))]]

\* a nested mapping of plain fields
FitsRec(t, flds) == IsNull(t) \/ (IsMap(t) /\ \A f \in DOMAIN flds : FitsField(flds[f], F(t, f)))
CloneFields == [disable |-> "bool", depth |-> "int", skip_verify |-> "bool"]
PlatformFields == [os |-> "str", arch |-> "str", variant |-> "str", version |-> "str"]
WorkspaceFields == [base |-> "str", path |-> "str"]
PipelineFields == [version |-> "str", kind |-> "str", type |-> "str", name |-> "str", depends_on |-> "list",
                   node |-> "strmap", image_pull_secrets |-> "list", trigger |-> "conds"]
FitsPipeline(t) ==
  /\ IsNull(t) \/ IsMap(t)
  /\ \A f \in DOMAIN PipelineFields : FitsField(PipelineFields[f], F(t, f))
  /\ FitsRec(F(t, "clone"), CloneFields) /\ FitsRec(F(t, "concurrency"), [limit |-> "int"])
  /\ FitsRec(F(t, "platform"), PlatformFields) /\ FitsRec(F(t, "workspace"), WorkspaceFields)
  /\ FitsSeqOf(F(t, "services"), FitsContainer) /\ FitsSeqOf(F(t, "steps"), FitsContainer)
  /\ FitsSeqOf(F(t, "volumes"), FitsVolume)
Rec(t, flds) == [f \in DOMAIN flds |-> FieldVal(flds[f], F(t, f))]
Pipeline(t) ==
  LET V(f) == FieldVal(PipelineFields[f], F(t, f)) IN
  [r |-> "pipeline", version |-> V("version"), kind |-> V("kind"), type |-> V("type"), name |-> V("name"),
   clone |-> Rec(F(t, "clone"), CloneFields), concurrency |-> Int_(F(F(t, "concurrency"), "limit")),
   depends_on |-> V("depends_on"), node |-> V("node"), platform |-> Rec(F(t, "platform"), PlatformFields),
   pull_secrets |-> V("image_pull_secrets"), services |-> ListOf(F(t, "services"), Container),
   steps |-> ListOf(F(t, "steps"), Container), trigger |-> V("trigger"), volumes |-> ListOf(F(t, "volumes"), Volume),
   workspace |-> Rec(F(t, "workspace"), WorkspaceFields)]

FitsCron(t) == (IsNull(t) \/ IsMap(t)) /\ FitsRec(t, [version |-> "str", kind |-> "str", type |-> "str", name |-> "str"])
               /\ FitsRec(F(t, "spec"), [schedule |-> "str", branch |-> "str"])
               /\ FitsRec(F(F(t, "spec"), "deployment"), [target |-> "str"])
Cron(t) == [r |-> "cron", version |-> Str(F(t, "version")), kind |-> Str(F(t, "kind")), type |-> Str(F(t, "type")), name |-> Str(F(t, "name")),
            schedule |-> Str(F(F(t, "spec"), "schedule")), branch |-> Str(F(F(t, "spec"), "branch")),
            target |-> Str(F(F(F(t, "spec"), "deployment"), "target"))]
FitsSecret(t) == (IsNull(t) \/ IsMap(t)) /\ FitsRec(t, [version |-> "str", kind |-> "str", type |-> "str", name |-> "str", data |-> "str"])
                 /\ FitsRec(F(t, "get"), [path |-> "str", name |-> "str", key |-> "str"])
Secret(t) == [r |-> "secret", version |-> Str(F(t, "version")), kind |-> Str(F(t, "kind")), type |-> Str(F(t, "type")), name |-> Str(F(t, "name")),
              data |-> Str(F(t, "data")), get |-> Rec(F(t, "get"), [path |-> "str", name |-> "str", key |-> "str"])]
FitsSignature(t) == (IsNull(t) \/ IsMap(t)) /\ FitsRec(t, [version |-> "str", kind |-> "str", hmac |-> "str"])
Signature(t) == [r |-> "signature", version |-> Str(F(t, "version")), kind |-> Str(F(t, "kind")), hmac |-> Str(F(t, "hmac"))]
FitsRegistry(t) == (IsNull(t) \/ IsMap(t)) /\ FitsRec(t, [version |-> "str", kind |-> "str", type |-> "str", data |-> "strmap"])
Registry(t) == [r |-> "registry", version |-> Str(F(t, "version")), kind |-> Str(F(t, "kind")), type |-> Str(F(t, "type")), data |-> StrMap(F(t, "data"))]

\* the document envelope read first: version, kind, type
FitsEnvelope(t) == (IsNull(t) \/ IsMap(t)) /\ FitsRec(t, [version |-> "str", kind |-> "str", type |-> "str"])
KindOf(t) == Str(F(t, "kind"))
FitsResource(t) ==
  /\ FitsEnvelope(t)
  /\ CASE KindOf(t) = "cron" -> FitsCron(t) [] KindOf(t) = "secret" -> FitsSecret(t)
       [] KindOf(t) = "signature" -> FitsSignature(t) [] KindOf(t) = "registry" -> FitsRegistry(t)
       [] OTHER -> FitsPipeline(t)
Resource(t) ==
  CASE KindOf(t) = "cron" -> Cron(t) [] KindOf(t) = "secret" -> Secret(t)
    [] KindOf(t) = "signature" -> Signature(t) [] KindOf(t) = "registry" -> Registry(t)
    [] OTHER -> Pipeline(t)
\* the parse of a sequence of documents, all or nothing
FitsDocs(docs) == \A i \in 1..Len(docs) : FitsResource(docs[i]) /\ KindOf(docs[i]) # ""
Docs(docs) == MapSeq(docs, Resource)
=============================================================================
