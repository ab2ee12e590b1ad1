----------------------------- MODULE MC_Format -----------------------------
(* Manifests pushed through formatting and the two encodings: whatever the  *)
(* order, only the listed normalisations happen, each once.  The manifests  *)
(* have every field, alone or with every other field, in every shape.       *)
EXTENDS Format, Shapes, Json
CONSTANTS MaxForms, Pairs
VARIABLES doc, base, m, chain
vars == <<doc, base, m, chain>>

PipeFields == [name |-> "str", version |-> "str", type |-> "str", clone |-> "clone", concurrency |-> "limit", depends_on |-> "list", node |-> "strmap", platform |-> "platform",
               image_pull_secrets |-> "list", trigger |-> "conds", volumes |-> "volumes", workspace |-> "workspace"]
Other == [cron |-> [name |-> "str", version |-> "str", type |-> "str", spec |-> "spec"], secret |-> [name |-> "str", type |-> "str", data |-> "data", get |-> "get"],
          signature |-> [version |-> "str", hmac |-> "str"], registry |-> [version |-> "str", type |-> "str", data |-> "strmap"]]
\* records with one or two of the fields
One(fs) == {<<e(f, x)>> : <<f, x>> \in UNION {{<<f, x>> : x \in Frag(fs[f])} : f \in DOMAIN fs}}
Some(fs) == One(fs) \cup IF Pairs THEN {p \o q : p \in One(fs), q \in One(fs)} ELSE {}
Sane(q) == Len(q) < 2 \/ q[1].k # q[2].k
Kind(k) == e("kind", str(k))
Docs_ ==
  {map(<<Kind("pipeline"), e(w, seq(<<map(q)>>))>>) : w \in (IF Pairs THEN {"steps"} ELSE {"steps", "services"}), q \in {q \in Some(ContainerFields) : Sane(q)}}
  \cup {map(<<Kind("pipeline")>> \o q) : q \in {q \in Some(PipeFields) : Sane(q)}}
  \cup {map(<<Kind("pipeline"), e("steps", x), e("services", y)>>) : x \in {nul, seq(<<>>), seq(<<nul, map(<<>>)>>), seq(<<m1("name", str("a")), nul>>)}, y \in {seq(<<map(<<>>), m1("image", str("b"))>>), nul}}
  \cup UNION {{map(q \o <<Kind(k)>>) : q \in {q \in Some(Other[k]) : Sane(q)}} : k \in DOMAIN Other}
Init == /\ doc \in Docs_ /\ base = Docs(<<doc>>) /\ m = base /\ chain = <<>>
Next == /\ Len(chain) < MaxForms
        /\ \E f \in Forms : chain' = Append(chain, f) /\ m' = Step(f, m)
        /\ UNCHANGED <<doc, base>>
Spec == Init /\ [][Next]_vars
Accepted == FitsDocs(<<doc>>)
\* whatever the order, each normalisation happens once
Used == Elems(chain)
RECURSIVE AllOf(_, _)
AllOf(fs, d) == IF fs = {} THEN d ELSE LET f == CHOOSE f \in fs : TRUE IN Step(f, AllOf(fs \ {f}, d))
Confluent == m = AllOf(Used, base)
Fixpoint == \A f \in Used : Step(f, m) = m
\* nothing but the listed normalisations
Erase(c) == IF c.nil THEN c ELSE [c EXCEPT !.environment = DOMAIN @, !.settings = DOMAIN @, !.when = NoMatrix(@)]
Only == \A k \in 1..Len(m) :
  LET a == m[k] b == base[k] IN
  /\ DOMAIN a = DOMAIN b
  /\ \A f \in DOMAIN a \ {"steps", "services", "platform", "trigger", "data"} : a[f] = b[f]
  /\ a.r = "pipeline" => /\ MapSeq(a.steps, Erase) = MapSeq(b.steps, Erase) /\ MapSeq(a.services, Erase) = MapSeq(b.services, Erase)
                         /\ a.platform = (IF "fmt" \in Used /\ NoPlatform(b.platform) THEN DefaultPlatform ELSE b.platform)
                         /\ NoMatrix(a.trigger) = NoMatrix(b.trigger)
Emit == Len(chain) = MaxForms => PrintT(ToJson([doc |-> doc, chain |-> chain]))
=============================================================================
