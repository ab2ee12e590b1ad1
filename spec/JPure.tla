------------------------------- MODULE JPure -------------------------------
(* Observed histories of operations.  c.o.runs: the same operations in other *)
(* orders and processes.                                                     *)
EXTENDS Util
VPure(c) ==
  IF \E k \in 1..Len(c.o.runs) : c.o.runs[k].crash # "none" THEN {"crash"}
  ELSE LET R == c.o.runs S == UNION {Elems(R[k].vals) : k \in 1..Len(R)} IN
       Label(Agree(S), "differs") \cup Label(\A k \in 1..Len(R) : R[k].inputs, "input") \cup Label(\A k \in 1..Len(R) : ~R[k].drift, "drift")
       \cup Label(\A k \in 1..Len(R) : ~R[k].reused, "reused")
=============================================================================
