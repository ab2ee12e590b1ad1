------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* A configuration stream as a sequence of lines (yaml/parse.go, ParseRaw). *)
(* A line is known by its beginning; only separators and terminators matter.*)
(***************************************************************************)
EXTENDS Util

IsSep(l) == HasPrefix(l, "---")
IsTerm(l) == HasPrefix(l, "...")
Class(l) == IF IsSep(l) THEN "sep" ELSE IF IsTerm(l) THEN "term" ELSE "text"

\* ---- what a stream means, declaratively ----
\* the lines that count: those before the first terminator
Terms(q) == {i \in 1..Len(q) : IsTerm(q[i])}
Extent(q) == IF Terms(q) = {} THEN Len(q) ELSE Min(Terms(q)) - 1
Seps(q) == {i \in 1..Extent(q) : IsSep(q[i])}
\* the positions of the lines of the documents
Opening(q) == IF Extent(q) >= 1 /\ ~IsSep(q[1]) THEN {0} ELSE {}      \* text before the first separator
Starts(q) == SetToSortSeq(Opening(q) \cup Seps(q), <)
NextStart(q, s) == LET S == {t \in Seps(q) : t > s} IN IF S = {} THEN Extent(q) + 1 ELSE Min(S)
DocAt(q, s) == [k \in 1..(NextStart(q, s) - s - 1) |-> s + k]
DocLines(q) == [d \in 1..Len(Starts(q)) |-> DocAt(q, Starts(q)[d])]

\* ---- the reader: one line at a time ----
\* st = [docs, open, done]
Reader0 == [docs |-> <<>>, open |-> FALSE, done |-> FALSE]
Feed(st, l, i) ==
  IF st.done THEN st
  ELSE IF IsSep(l) THEN [st EXCEPT !.docs = Append(@, <<>>), !.open = TRUE]
  ELSE IF IsTerm(l) THEN [st EXCEPT !.done = TRUE]
  ELSE LET d == IF st.open THEN st.docs ELSE Append(st.docs, <<>>) IN
       [st EXCEPT !.docs = [d EXCEPT ![Len(d)] = Append(@, i)], !.open = TRUE]

\* the kind a document declares: its last `kind: x` line
KindLine(l) == HasPrefix(l, "kind: ")
KindIn(q, d) == LET I == {k \in 1..Len(d) : KindLine(q[d[k]])} IN IF I = {} THEN "" ELSE From(q[d[Max(I)]], 7)
=============================================================================
