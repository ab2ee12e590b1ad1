-------------------------------- MODULE Util --------------------------------
(* Strings, sequences and functions used by every part of the specification. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
From(s, i) == SubSeq(s, i, Len(s))                 \* suffix starting at i
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
TrimPrefix(s, p) == IF HasPrefix(s, p) THEN From(s, Len(p) + 1) ELSE s
TrimSuffix(s, p) == IF HasSuffix(s, p) THEN SubSeq(s, 1, Len(s) - Len(p)) ELSE s

\* first index >= i at which p occurs in s, or 0
IndexFrom(s, p, i) == LET n == Len(p) I == {j \in i..(Len(s) - n + 1) : SubSeq(s, j, j + n - 1) = p} IN IF I = {} THEN 0 ELSE Min(I)
Index(s, p) == IndexFrom(s, p, 1)
LastIndex(s, p) == LET n == Len(p) I == {j \in 1..(Len(s) - n + 1) : SubSeq(s, j, j + n - 1) = p} IN IF I = {} THEN 0 ELSE Max(I)
HasSub(s, p) == Index(s, p) # 0

RECURSIVE Split(_, _)
Split(s, sep) ==
  LET i == Index(s, sep) IN
  IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(From(s, i + Len(sep)), sep)

RECURSIVE Join(_, _)
Join(q, sep) ==
  IF Len(q) = 0 THEN ""
  ELSE IF Len(q) = 1 THEN q[1]
  ELSE q[1] \o sep \o Join(Tail(q), sep)

RECURSIVE StrReplace(_, _, _)
StrReplace(s, p, r) ==
  LET i == Index(s, p) IN
  IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o r \o StrReplace(From(s, i + Len(p)), p, r)

UpperLetters == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerLetters == "abcdefghijklmnopqrstuvwxyz"
Digits == "0123456789"
Concat(q) == FoldLeft(LAMBDA a, b : a \o b, "", q)
MapChars(s, Op(_)) == Concat([i \in 1..Len(s) |-> Op(Ch(s, i))])
\* tables: plain set comprehensions, which TLC evaluates once
LowerOf == [c \in {SubSeq(UpperLetters, n, n) : n \in 1..26} |-> LET n == CHOOSE n \in 1..26 : SubSeq(UpperLetters, n, n) = c IN SubSeq(LowerLetters, n, n)]
UpperOf == [c \in {SubSeq(LowerLetters, n, n) : n \in 1..26} |-> LET n == CHOOSE n \in 1..26 : SubSeq(LowerLetters, n, n) = c IN SubSeq(UpperLetters, n, n)]
DigitSet == {SubSeq(Digits, n, n) : n \in 1..10}
LowerSet == {SubSeq(LowerLetters, n, n) : n \in 1..26}
UpperSet == {SubSeq(UpperLetters, n, n) : n \in 1..26}
LowerCh(c) == IF c \in UpperSet THEN LowerOf[c] ELSE c
UpperCh(c) == IF c \in LowerSet THEN UpperOf[c] ELSE c
Lower(s) == MapChars(s, LowerCh)
Upper(s) == MapChars(s, UpperCh)
IsDigit(c) == c \in DigitSet
IsAlnumLower(c) == IsDigit(c) \/ c \in LowerSet
IsAlnum(c) == IsAlnumLower(c) \/ c \in UpperSet
AllCh(s, P(_)) == \A i \in 1..Len(s) : P(Ch(s, i))
RECURSIVE ToNat(_)
ToNat(s) == IF Len(s) = 0 THEN 0 ELSE 10 * ToNat(SubSeq(s, 1, Len(s) - 1)) + Index(Digits, Ch(s, Len(s))) - 1

\* sequences
MapSeq(q, Op(_)) == TLCEval([i \in 1..Len(q) |-> Op(q[i])])
Elems(q) == {q[i] : i \in 1..Len(q)}
Distinct(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
Flat(qq) == FoldLeft(LAMBDA a, b : a \o b, <<>>, qq)
Keep(q, P(_)) == SelectSeq(q, P)
CountIn(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Elems(p) \cup Elems(q) : CountIn(p, x) = CountIn(q, x)
RECURSIVE Dedup(_)
Dedup(q) == IF Len(q) = 0 THEN <<>>
            ELSE LET r == Dedup(SubSeq(q, 1, Len(q) - 1)) x == q[Len(q)] IN
                 IF x \in Elems(r) THEN r ELSE Append(r, x)

\* functions with string domain (JSON objects)
Empty == [x \in {} |-> 0]
Dom(f) == DOMAIN f
Over(f, g) == TLCEval([k \in (DOMAIN f) \cup (DOMAIN g) |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]])  \* g wins
SameMap(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
RestrictTo(f, S) == [k \in (DOMAIN f) \cap S |-> f[k]]
Without(f, S) == [k \in (DOMAIN f) \ S |-> f[k]]
Has(r, k) == k \in DOMAIN r
\* verdict clauses: the label of a condition that fails
Label(c, l) == IF c THEN {} ELSE {l}
\* all results of one operation on one input agree
Agree(S) == \A x, y \in S : (x.op = y.op /\ x.in = y.in) => x.val = y.val
Ite(c, a, b) == IF c THEN a ELSE b
=============================================================================
