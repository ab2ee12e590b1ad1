------------------------------ MODULE JDecode ------------------------------
(* Observed parses against Resource.tla.                                     *)
EXTENDS Resource

\* observed resources against specified ones, field by field
DiffRes(a, b) ==
  IF a.r # b.r THEN {"type"}
  ELSE Label(\A f \in DOMAIN b : f \in DOMAIN a /\ a[f] = b[f], "value")
       \cup Label(a.getkind = b.kind /\ a.getversion = b.version, "envelope")
DiffDocs(obs, want) ==
  IF Len(obs) # Len(want) THEN {"count"}
  ELSE UNION {DiffRes(obs[i], want[i]) : i \in 1..Len(want)}
V03(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF Has(c.o, "agree") /\ ~c.o.agree THEN {"entries_differ"}
  ELSE IF FitsDocs(c.docs)
       THEN IF ~c.o.ok THEN {"rejected"} ELSE DiffDocs(c.o.res, Docs(c.docs))
       ELSE Label(~c.o.ok, "accepted") \cup Label(~c.o.partial, "partial")


\* c.shape: the documents by kind and fault, before any terminator
KindType(k) == IF k \in {"cron", "secret", "signature", "registry"} THEN k ELSE "pipeline"
V02(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE Label(~Has(c.o, "agree") \/ c.o.agree, "entries_differ")
       \cup (IF \E i \in 1..Len(c.shape) : c.shape[i].fault # "none" \/ c.shape[i].kind = ""
              THEN Label(~c.o.ok, "accepted") \cup Label(~c.o.partial, "partial")
              ELSE IF ~c.o.ok THEN {"rejected"}
              ELSE IF Len(c.o.res) # Len(c.shape) THEN {"count"}
              ELSE UNION {Label(c.o.res[i].r = KindType(c.shape[i].kind), "type") \cup Label(c.o.res[i].kind = c.shape[i].kind /\ c.o.res[i].getkind = c.shape[i].kind, "kind")
                          \cup Label(~Has(c.o.res[i], "name") \/ c.o.res[i].name = c.shape[i].name, "order") : i \in 1..Len(c.shape)})
\* the JSON form: no kind means a pipeline
VJson(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN {"rejected"} ELSE DiffDocs(c.o.res, Docs(c.docs))
=============================================================================
