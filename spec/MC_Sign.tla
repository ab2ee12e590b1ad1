------------------------------ MODULE MC_Sign ------------------------------
(* Signing, tampering and verifying with an ideal MAC: whoever does not hold *)
(* a key cannot make other documents verify under it; signing in place keeps *)
(* the documents and is a fixpoint.                                          *)
EXTENDS Util, Json
CONSTANTS MaxOps
Keys == {"k1", "k2"}
Contents == {"a", "b"}
\* a document is content, or a signature: [key, docs] (a MAC) or junk
Doc(x) == [sig |-> FALSE, v |-> x]
Junk == [key |-> "junk", docs |-> <<>>]
Sig(m) == [sig |-> TRUE, v |-> m]
VARIABLES file, signed, ops, start
vars == <<file, signed, ops, start>>
Body(f) == MapSeq(SelectSeq(f, LAMBDA d : ~d.sig), LAMBDA d : d.v)
Mac(f) == LET q == SelectSeq(f, LAMBDA d : d.sig) IN IF q = <<>> THEN Junk ELSE Head(q).v
Verify(f, k) == Mac(f) = [key |-> k, docs |-> Body(f)]
Update(f, k) == SelectSeq(f, LAMBDA d : ~d.sig) \o <<Sig([key |-> k, docs |-> Body(f)])>>
Init == /\ file \in {<<Doc("a")>>, <<Doc("a"), Doc("b")>>, <<Sig(Junk), Doc("a")>>, <<Doc("b"), Sig(Junk), Doc("a"), Sig(Junk)>>}
        /\ signed = {} /\ ops = <<>> /\ start = file
Op(o, f, s) == ops' = Append(ops, o) /\ file' = f /\ signed' = s /\ UNCHANGED start
Owner == \E k \in Keys : Op([do |-> "update", key |-> k], Update(file, k), signed \cup {[key |-> k, docs |-> Body(file)]})
\* the adversary knows every signature made, and no key
Adversary ==
  \/ \E n \in 1..Len(file), x \in Contents : ~file[n].sig /\ file[n].v # x /\ Op([do |-> "edit", n |-> n, x |-> x], [file EXCEPT ![n].v = x], signed)
  \/ \E n \in 1..Len(file) : Op([do |-> "remove", n |-> n], SubSeq(file, 1, n - 1) \o SubSeq(file, n + 1, Len(file)), signed)
  \/ \E n \in 1..(Len(file) - 1) : Op([do |-> "swap", n |-> n], [file EXCEPT ![n] = file[n + 1], ![n + 1] = file[n]], signed)
  \/ \E m \in signed \cup {Junk} : Op([do |-> "paste", key |-> m.key, m |-> m], <<Sig(m)>> \o file, signed)
  \/ \E n \in 1..Len(file) : file[n].sig /\ file[n].v # Junk /\ Op([do |-> "mangle", n |-> n], [file EXCEPT ![n].v = Junk], signed)
  \/ \E x \in Contents : Len(file) < 3 /\ Op([do |-> "append", x |-> x], Append(file, Doc(x)), signed)
Next == Len(ops) < MaxOps /\ (Owner \/ Adversary)
Spec == Init /\ [][Next]_vars
Authentic == \A k \in Keys : Verify(file, k) => [key |-> k, docs |-> Body(file)] \in signed
OneKey == \A k, l \in Keys : Verify(file, k) /\ Verify(file, l) => k = l
Stable == \A k \in Keys : LET u == Update(file, k) IN Verify(u, k) /\ Body(u) = Body(file) /\ Update(u, k) = u /\ Cardinality({n \in 1..Len(u) : u[n].sig}) = 1 /\ u[Len(u)].sig
\* an edit of the documents breaks a valid signature
Tamper == [][\A k \in Keys : Verify(file, k) /\ ops'[Len(ops')].do \in {"edit", "append"} => ~Verify(file', k)]_vars
Emit == ops = <<>> \/ PrintT(ToJson([ops |-> ops, start |-> start]))
=============================================================================
