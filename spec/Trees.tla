------------------------------- MODULE Trees -------------------------------
(* Building documents.                                                       *)
EXTENDS Util
nul == [t |-> "null", s |-> "null"]
str(x) == [t |-> "str", s |-> x, c |-> x]
int(n) == [t |-> "int", s |-> ToString(n), c |-> ToString(n), n |-> n]
bool(b) == [t |-> "bool", s |-> ToString(b), b |-> b, c |-> IF b THEN "true" ELSE "false"]
\* a number with a fraction, by its shortest text
float(x) == [t |-> "float", s |-> x, c |-> x]
seq(q) == [t |-> "seq", v |-> q]
strs(q) == seq(MapSeq(q, str))
e(k, v) == [k |-> k, y |-> "s", q |-> k, v |-> v]
map(q) == [t |-> "map", v |-> q]
m1(k, v) == map(<<e(k, v)>>)
m2(k, v, l, w) == map(<<e(k, v), e(l, w)>>)
\* fields that are set
opt(k, v) == IF v.t = "null" THEN <<>> ELSE <<e(k, v)>>
=============================================================================
