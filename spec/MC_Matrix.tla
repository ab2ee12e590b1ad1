------------------------------ MODULE MC_Matrix ------------------------------
(* An odometer over the axes of a matrix: its positions, in order, are the    *)
(* combinations of the specification, each once, up to the cap.               *)
EXTENDS Convert, Trees, Json
CONSTANTS MaxValues, Caps
Vals == <<"1.10", "a", "b-c", "x", "go", "2.6">>
\* the values of an axis: none, some, one of them twice, null
Values == {SubSeq(Vals, 1, n) : n \in 0..MaxValues} \cup {<<"a", "a">>, <<"b-c", "a", "b-c">>} \cup {<<"NULL">>}
ValTree(q) == IF q = <<"NULL">> THEN nul ELSE strs(q)
Includes_ == {<<>>, <<m1("A", str("1"))>>, <<m2("A", str("1.10"), "B", str("x")), m1("B", str("y"))>>, <<m1("A", str("1")), m1("A", str("1"))>>, <<map(<<>>), m2("B", str("b"), "A", str("a"))>>}
\* the axes are written in either order
Orders == {<<"A", "B", "C">>, <<"C", "A", "B">>}
VARIABLES doc, pos, seen, done
vars == <<doc, pos, seen, done>>
\* one state of the wide matrices per number of axes: two values each
Wide(n) == map([i \in 1..n |-> e(Ch("HCAFBKDMEJGLIN", i), strs(IF i % 3 = 0 THEN <<"v">> ELSE <<"v", "w">>))])
Docs_ == {map(MapSeq(o, LAMBDA k : e(k, ValTree(f[k])))) : f \in [{"A", "B", "C"} -> Values], o \in Orders}
         \cup {map(MapSeq(SubSeq(o, 1, 2), LAMBDA k : e(k, ValTree(f[k])))) : f \in [{"A", "B", "C"} -> Values], o \in Orders}
         \cup {map(<<e("include", seq(i))>> \o x) : i \in Includes_, x \in {<<>>, <<e("A", strs(<<"p", "q">>))>>, <<e("B", strs(<<>>))>>}}
         \cup (IF Caps THEN {Wide(n) : n \in 1..14} ELSE {}) \cup {map(<<>>), nul}
Plain == MatrixInclude(doc) = <<>>
K == IF Plain THEN {k \in Keys(doc) : List(F(doc, k)) # <<>>} ELSE {}
Digit == LET s == Sorted(K) IN SubSeq(s, 1, IF Len(s) < MaxAxes THEN Len(s) ELSE MaxAxes)
At(p) == [k \in Elems(Digit) |-> List(F(doc, k))[p[k]]]
Init == /\ doc \in Docs_ /\ seen = <<>> /\ pos = [k \in Elems(Digit) |-> 1] /\ done = (~Plain \/ K = {})
\* add one at the last digit, carrying to the left
AtEnd(k) == pos[k] = Len(List(F(doc, k)))
Tick == LET I == {n \in 1..Len(Digit) : ~AtEnd(Digit[n])} IN
        IF I = {} THEN pos ELSE [k \in DOMAIN pos |-> LET n == CHOOSE n \in 1..Len(Digit) : Digit[n] = k IN IF n > Max(I) THEN 1 ELSE IF n = Max(I) THEN pos[k] + 1 ELSE pos[k]]
Next == /\ ~done /\ seen' = Append(seen, At(pos)) /\ pos' = Tick /\ UNCHANGED doc
        /\ done' = (Len(seen') = MaxCombinations \/ \A k \in DOMAIN pos : AtEnd(k))
Spec == Init /\ [][Next]_vars
Same == done /\ Plain => seen = Axes(doc)
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Len(List(F(doc, Head(q)))) * Prod(Tail(q))
CountOK == done /\ Plain /\ K # {} => Len(seen) = (IF Prod(Digit) < MaxCombinations THEN Prod(Digit) ELSE MaxCombinations)
Once == Plain /\ (\A k \in K : Distinct(List(F(doc, k)))) => Distinct(seen)
IncludeWins == done /\ ~Plain => Axes(doc) = MatrixInclude(doc)
Emit == done => PrintT(ToJson([doc |-> doc, n |-> Len(Axes(doc))]))
=============================================================================
