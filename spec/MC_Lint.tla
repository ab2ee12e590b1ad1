------------------------------- MODULE MC_Lint -------------------------------
(* All pipelines of at most MaxC containers over few names and dependency     *)
(* lists, grown one container at a time: what the linter accepts is acyclic,  *)
(* uniquely named and closed; appending never repairs an unsound pipeline.    *)
EXTENDS Lint, Json
CONSTANT MaxC
Names == {"a", "b", "clone", ""}
DepLists == {<<>>, <<"a">>, <<"b">>, <<"clone">>, <<"a", "b">>, <<"zz">>}
VARIABLES steps, svcs, clone
vars == <<steps, svcs, clone>>
C(n, d) == [name |-> n, deps |-> d]
NoCond == [include |-> <<>>, exclude |-> <<>>]
Full(x) == [nil |-> FALSE, name |-> x.name, depends_on |-> x.deps, image |-> "i", build |-> [set |-> FALSE, image |-> ""],
            privileged |-> FALSE, devices |-> <<>>, dns |-> <<>>, dns_search |-> <<>>, extra_hosts |-> <<>>, network |-> "", ports |-> <<>>, volumes |-> <<>>]
P(st, sv, cl) == [steps |-> MapSeq(st, Full), services |-> MapSeq(sv, Full), volumes |-> <<>>, clone |-> [disable |-> ~cl], platform |-> [os |-> "", arch |-> ""]]
Cur == P(steps, svcs, clone)
Init == steps = <<>> /\ svcs = <<>> /\ clone \in BOOLEAN
Next == /\ Len(steps) + Len(svcs) < MaxC /\ UNCHANGED clone
        /\ \E n \in Names, d \in DepLists :
             \/ steps' = Append(steps, C(n, d)) /\ svcs' = svcs /\ svcs = <<>>
             \/ svcs' = Append(svcs, C(n, d)) /\ steps' = steps
Spec == Init /\ [][Next]_vars
Q == steps \o svcs
Edges == {<<i, j>> \in (1..Len(Q)) \X (1..Len(Q)) : Q[j].name \in Elems(Q[i].deps)}
RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup {e[2] : e \in {e \in Edges : e[1] \in S}}, n - 1)
Cyclic == \E i \in 1..Len(Q) : i \in Reach({e[2] : e \in {e \in Edges : e[1] = i}}, Len(Q))
Acyclic == AcceptTrusted(Cur) => ~Cyclic
Closed == AcceptTrusted(Cur) => \A i \in 1..Len(Q) : Elems(Q[i].deps) \subseteq {Q[j].name : j \in 1..Len(Q)} \cup CloneNames(Cur)
Unique == AcceptTrusted(Cur) => Cardinality({Q[i].name : i \in 1..Len(Q)}) = Len(Q) /\ \A i \in 1..Len(Q) : Q[i].name # "" /\ Q[i].name \notin CloneNames(Cur)
\* order is an execution order
Topological == AcceptTrusted(Cur) => \A e \in Edges : e[2] < e[1]
\* an unsound prefix stays unsound
Prefixed == [][~AcceptTrusted(Cur) => ~AcceptTrusted(Cur)']_vars
Emit == PrintT(ToJson([steps |-> steps, svcs |-> svcs, clone |-> clone]))
=============================================================================
