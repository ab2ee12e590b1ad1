------------------------------ MODULE MC_Cond ------------------------------
(* All patterns of at most MaxToks tokens against a set of names: laws of     *)
(* matching, and the cases replayed on yaml.Condition.                        *)
EXTENDS Glob, Json
CONSTANT MaxToks
Toks1 == <<"a", "b", "*", "**", "?", "/", "[ab]", "[^a]", "[a-c]", "{a,b}", "{a*,b?}", "{[ab]c,a}", "\\*", "[", "{a", "\\", "-">>
Names == <<"", "a", "b", "c", "ab", "ba", "abc", "a/b", "b/a", "a/b/c", "*", "a*", "aa", "a-", "x">>
VARIABLES pat,        \* sequence of token indexes
          acc         \* the names it accepts
vars == <<pat, acc>>
TextOf(p) == Concat([i \in 1..Len(p) |-> Toks1[p[i]]])
Text == TextOf(pat)
Accepts(s) == LET q == SplitPlain(s, "/") IN {n \in Elems(Names) : SegsMatch(q, Split(n, "/"))}
Init == pat = <<>> /\ acc = {""}
\* patterns whose meaning shells do not agree on are left out
Quirk(s) == HasSub(s, "***") \/ HasSub(s, "//") \/ HasSuffix(s, "/") \/ HasPrefix(s, "/") \/ HasSub(s, "{,") \/ HasSub(s, "\\/") \/ HasSub(s, "\\\\")
            \/ HasSub(s, "[[") \/ HasSub(s, "{a{") \/ HasSub(s, "[{") \/ HasSub(s, "{a[") \/ HasSub(s, "}**") \/ (HasSub(s, "*{a*") /\ HasSub(s, "**"))
            \/ Cardinality({i \in 1..Len(s) : Ch(s, i) = "{"}) > Cardinality({i \in 1..Len(s) : Ch(s, i) = "}"}) + (IF HasSub(s, "}") THEN 0 ELSE 1)
            \/ (HasSub(s, "}") /\ \E i \in 1..Len(pat) : Toks1[pat[i]] = "{a")
Next == /\ Len(pat) < MaxToks
        /\ \E k \in 1..Len(Toks1) : pat' = Append(pat, k)
        /\ acc' = Accepts(TextOf(pat'))
Spec == Init /\ [][Next]_vars

Meta(s) == \E c \in {"*", "?", "[", "{", "\\"} : HasSub(s, c)
Segs(n) == Len(Split(n, "/"))
\* no metacharacter: only itself
Literal == ~Meta(Text) => acc = {Text} \cap Elems(Names)
\* without `**` the number of segments is that of the pattern
SegmentBound == ~HasSub(Text, "**") /\ ~HasSub(Text, "\\") => \A n \in acc : Segs(n) = Segs(Text)
\* excludes win; an empty include list accepts; adding an exclude never accepts more
Laws == \A n \in {"a", "ab", "a/b"} :
          LET inc(i, e) == Match([include |-> i, exclude |-> e], n) IN
          /\ ~inc(<<Text>>, <<Text>>) /\ inc(<<>>, <<>>)
          /\ inc(<<Text>>, <<>>) = (n \in acc) /\ inc(<<>>, <<Text>>) = (n \notin acc)
          /\ inc(<<Text, "a">>, <<>>) = (n \in acc \/ n = "a")
\* a brace alternative is the union of its choices
Choice(a, b) == [i \in 1..Len(pat) |-> CASE Toks1[pat[i]] = "{a,b}" -> <<"a", "b">>[a] [] Toks1[pat[i]] = "{a*,b?}" -> <<"a*", "b?">>[b] [] OTHER -> Toks1[pat[i]]]
One(tok) == Cardinality({i \in 1..Len(pat) : Toks1[pat[i]] = tok}) <= 1
WellFormed == \A i \in 1..Len(pat) : Toks1[pat[i]] \notin {"[", "{a", "\\"}
Alternatives == One("{a,b}") /\ One("{a*,b?}") /\ WellFormed /\ ~HasSub(Text, "***") /\ ~HasSub(Concat(Choice(1, 1)), "***")
   /\ (\A i \in 1..Len(pat) : Toks1[pat[i]] # "**")
   /\ HasSub(Text, ",") => acc = UNION {Accepts(Concat(Choice(a, b))) : a \in {1, 2}, b \in {1, 2}}
Emit == pat = <<>> \/ Quirk(Text) \/ PrintT(ToJson([pat |-> Text]))
=============================================================================
