-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* Operations on shared inputs, overlapping in any way.  An operation reads *)
(* its input when it begins and gives its result when it ends; nothing else *)
(* changes.  So whatever overlaps or came before, a result is that of the   *)
(* operation alone (F), and the inputs stay what they were.                 *)
(***************************************************************************)
EXTENDS Util
VARIABLES input, open, out
\* items: sequence of [op, in]; F(op, value): the result alone
PureInit(I) == input = I /\ open = Empty /\ out = {}
Begin_(k, x) == /\ k \notin DOMAIN open
                /\ open' = Over(open, [z \in {k} |-> [op |-> x.op, in |-> x.in, v |-> input[x.in]]])
                /\ UNCHANGED <<input, out>>
End_(k, F(_, _)) == /\ k \in DOMAIN open
                    /\ out' = out \cup {[op |-> open[k].op, in |-> open[k].in, val |-> F(open[k].op, open[k].v)]}
                    /\ open' = Without(open, {k}) /\ UNCHANGED input
=============================================================================
