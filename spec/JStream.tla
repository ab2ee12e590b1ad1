------------------------------ MODULE JStream ------------------------------
(* Observed splits against Stream.tla.  c.heads: the beginnings of the lines  *)
(* of the dictionary; c.seq: the stream; c.got: the number of lines delivered *)
(* before an injected read failure, or -1.                                    *)
EXTENDS Stream
V01(c) ==
  LET q == [i \in 1..Len(c.seq) |-> c.heads[c.seq[i]]]
      must == DocLines(q)
      failed == c.got >= 0
      ended == Terms(q) # {} /\ Min(Terms(q)) <= c.got IN      \* the terminator was read before the failure
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN Label(failed, "error")
  ELSE IF failed /\ ~ended THEN {"unnoticed_failure"}
  ELSE LET d == [k \in 1..Len(c.o.docs) |-> c.o.docs[k].lines]
           want == [k \in 1..Len(must) |-> [j \in 1..Len(must[k]) |-> c.seq[must[k][j]]]] IN
       Label(Len(d) = Len(want), "count") \cup Label(d = want, "lines")
            \cup Label(\A k \in 1..Len(d) : c.o.docs[k].closed, "unclosed")
            \cup Label(d # want \/ \A k \in 1..Len(d) : c.o.docs[k].kind = KindIn(q, must[k]), "kind")
=============================================================================
