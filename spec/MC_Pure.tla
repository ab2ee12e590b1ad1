------------------------------ MODULE MC_Pure ------------------------------
(* Histories of overlapping operations on two inputs.                        *)
EXTENDS Pure, Json
CONSTANTS Ops, MaxOps, MaxOpen
VARIABLES items, hist
vars == <<input, open, out, items, hist>>
F(op, v) == <<op, v>>
Init == PureInit(<<"x", "y">>) /\ items = <<>> /\ hist = <<>>
Next ==
  \/ /\ Len(items) < MaxOps /\ Cardinality(DOMAIN open) < MaxOpen
     /\ \E op \in Ops, i \in {1, 2} :
          /\ (items = <<>> => i = 1)      \* the two inputs are alike
          /\ items' = Append(items, [op |-> op, in |-> i]) /\ hist' = Append(hist, <<1, Len(items) + 1>>) /\ Begin_(Len(items) + 1, [op |-> op, in |-> i])
  \/ \E k \in DOMAIN open : End_(k, F) /\ hist' = Append(hist, <<0, k>>) /\ UNCHANGED items
Spec == Init /\ [][Next]_vars
Steady == input = <<"x", "y">>
Alone == \A x \in out : x.val = F(x.op, input[x.in])
Agreeing == Agree(out)
Emit == (Len(items) = MaxOps /\ open = Empty) => PrintT(ToJson([items |-> items, hist |-> hist]))
=============================================================================
