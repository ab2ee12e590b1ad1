------------------------------ MODULE MC_Stream ------------------------------
(* All streams of at most MaxLen lines over the classes of lines; the reader  *)
(* agrees with the declarative meaning; nothing is lost, moved or duplicated. *)
EXTENDS Stream, Json
CONSTANT MaxLen
Lines == <<"---", "--- # x", "...", "... y", "kind: cron", "k: v", "", "-- x: 1", ".. y: 2", "# c">>
VARIABLES in, st
vars == <<in, st>>
Init == in = <<>> /\ st = Reader0
Next == /\ Len(in) < MaxLen
        /\ \E k \in 1..Len(Lines) :
             /\ in' = Append(in, k)
             /\ st' = Feed(st, Lines[k], Len(in) + 1)
Spec == Init /\ [][Next]_vars
Text == [i \in 1..Len(in) |-> Lines[in[i]]]
Agrees == st.docs = DocLines(Text) /\ st.done = (Terms(Text) # {})
\* conservation: the lines of the documents, joined, are the text lines before the terminator, in order
Conserve == Flat(st.docs) = SelectSeq([i \in 1..Extent(Text) |-> i], LAMBDA i : Class(Text[i]) = "text")
\* one document per separator, plus one for text before the first
Count == Len(st.docs) = Cardinality(Seps(Text)) + Cardinality(Opening(Text))
\* nothing is read after a terminator
Frozen == [][st.done => st'.docs = st.docs]_vars
\* feeding only ever extends the last document or opens a new one
Monotone == [][\A d \in 1..(Len(st.docs) - 1) : st'.docs[d] = st.docs[d]]_vars
Emit == in = <<>> \/ PrintT(ToJson([seq |-> in]))
=============================================================================
