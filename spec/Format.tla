------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* Writing a manifest and reading it back (yaml/pretty, yaml/manifest.go).  *)
(* Formatting, encoding as YAML and encoding as JSON are transitions of     *)
(* manifests; each is the identity but for the normalisations below.        *)
(***************************************************************************)
EXTENDS JDecode

Forms == {"fmt", "yaml", "json"}
\* a variable with a value and a secret is a reference to the secret
RefOnly(v) == IF v.t = "both" THEN [t |-> "secret", s |-> v.s] ELSE v
\* keys of a mapping inside a setting are text in JSON
JKey(k) == "s:" \o From(k, 3)
RECURSIVE JTree(_)
JTree(t) == CASE t.t = "seq" -> [t EXCEPT !.v = MapSeq(@, JTree)]
              [] t.t = "map" -> LET ks == DOMAIN t.v IN
                                [t EXCEPT !.v = [k \in {JKey(x) : x \in ks} |-> JTree(t.v[CHOOSE x \in ks : JKey(x) = k])]]
              [] OTHER -> t
JSetting(s) == IF s.t = "val" THEN [s EXCEPT !.v = JTree(@)] ELSE s
NoMatrix(c) == [c EXCEPT !.matrix = Empty]
EachIn(f, Op(_)) == [k \in DOMAIN f |-> Op(f[k])]
FmtContainer(c) == IF c.nil THEN c ELSE [c EXCEPT !.environment = EachIn(@, RefOnly), !.when = NoMatrix(@)]
YamlContainer(c) == IF c.nil THEN c ELSE [c EXCEPT !.environment = EachIn(@, RefOnly)]
JsonContainer(c) == IF c.nil THEN c ELSE [c EXCEPT !.settings = EachIn(@, JSetting)]
DefaultPlatform == [os |-> "linux", arch |-> "amd64", variant |-> "", version |-> ""]
NoPlatform(p) == \A f \in {"os", "arch", "variant", "version"} : p[f] = ""
NoSpace(s) == IF HasSub(s, " ") \/ HasSub(s, "\n") THEN MapChars(s, LAMBDA c : IF c \in {" ", "\n"} THEN "" ELSE c) ELSE s
OnPipeline(p, C(_)) == [p EXCEPT !.services = MapSeq(@, C), !.steps = MapSeq(@, C)]
FmtNorm(r) == CASE r.r = "pipeline" -> LET p == OnPipeline(r, FmtContainer) IN
                     [p EXCEPT !.platform = IF NoPlatform(@) THEN DefaultPlatform ELSE @, !.trigger = NoMatrix(@)]
                [] r.r = "secret" -> [r EXCEPT !.data = NoSpace(@)]
                [] OTHER -> r
YamlNorm(r) == IF r.r = "pipeline" THEN OnPipeline(r, YamlContainer) ELSE r
JsonNorm(r) == IF r.r = "pipeline" THEN OnPipeline(r, JsonContainer) ELSE r
Norm1(form, r) == CASE form = "fmt" -> FmtNorm(r) [] form = "yaml" -> YamlNorm(r) [] form = "json" -> JsonNorm(r)
\* the formatter folds secret data, in which white space means nothing
Squeeze(r) == IF r.r = "secret" THEN [r EXCEPT !.data = NoSpace(@)] ELSE r
Step(form, docs) == MapSeq(docs, LAMBDA r : Norm1(form, r))

\* ---- judging a chain ----
\* c.chain: forms; c.o.base: the parsed manifest; c.o.steps[n]: [ok, res, ..] after form n
\* of a formatted text: sums of its bytes when printed again, after parsing, ..; its separators and terminators
Marked(n, s) == /\ s.marks = [k \in 1..n + 1 |-> IF k <= n THEN "sep" ELSE "term"]
                /\ s.first = 1 /\ s.last = s.lines /\ s.closed
ChainStep(form, prev, s) ==
  IF ~s.ok THEN {form \o "_rejected"} \cup (IF form = "fmt" THEN Label(s.sum = s.again, "not_deterministic") \cup Label(Marked(Len(prev), s), "layout") ELSE {})
  ELSE {form \o "_" \o x : x \in DiffDocs(IF form = "fmt" THEN MapSeq(s.res, Squeeze) ELSE s.res, Step(form, prev))}
       \cup (IF form = "fmt" THEN Label(s.sum = s.again, "not_deterministic") \cup Label(s.sum = s.reprint, "not_idempotent") \cup Label(Marked(Len(prev), s), "layout") ELSE {})
       \cup (IF form = "json" THEN Label(s.stable, "json_unstable") ELSE {})
       \cup (IF form = "yaml" THEN Label(s.stable, "yaml_unstable") \cup Label(s.refused, "marshalled") ELSE {})
VChain(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN {}                      \* not a manifest: nothing to format
  ELSE LET N == Len(c.o.steps)
           Prev(n) == IF n = 1 THEN c.o.base ELSE c.o.steps[n - 1].res IN
       UNION {ChainStep(c.chain[n], Prev(n), c.o.steps[n]) : n \in 1..N}
       \cup Label(\A k \in 1..Len(c.o.sums) : c.o.sums[k] = c.o.sums[1], "spelling")
=============================================================================
