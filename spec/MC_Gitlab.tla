------------------------------ MODULE MC_Gitlab ------------------------------
(* The pipelines of a GitLab file, run as their dependencies allow: every job *)
(* runs once, after every job of the earlier stages, with all its scripts.    *)
EXTENDS Convert, Trees, Json
CONSTANTS Jobs_, Scripts
Stages_ == {<<>>, <<"build">>, <<"build", "test">>, <<"test", "build">>, <<"zz", "build", "test">>}
Piece == {"before_script", "script", "after_script"}
\* which of the pieces exist, globally and in every job
VARIABLES doc, ps, done, ran
vars == <<doc, ps, done, ran>>
NamesOf(q) == MapSeq(q, LAMBDA c : c.name)
Img == [a |-> str("own"), b |-> m2("name", str("own"), "entrypoint", strs(<<"ep">>)), C |-> nul]
GImg == <<nul, str("glob"), map(<<e("name", str("glob")), e("entrypoint", strs(<<"g">>)), e("command", str("c"))>>)>>
Svc == <<nul, seq(<<str("redis:3"), m2("name", str("my/db"), "alias", str("db"))>>), seq(<<m2("name", str("a"), "command", strs(<<"c">>))>>)>>
Job(n, st, own) ==
  map(opt("stage", IF st = "" THEN nul ELSE str(st)) \o opt("image", Img[n]) \o (IF n = "b" THEN <<e("allow_failure", bool(TRUE))>> ELSE <<>>)
      \o MapSeq(SetToSortSeq(own, LAMBDA a, b : Less(b, a)), LAMBDA p : e(p, strs(<<n \o " " \o p, "x">>))))
\* a file: its stages, the pieces of script it has, and its jobs
Init ==
  \E st \in Stages_, glob \in SUBSET {"before_script", "after_script"}, js \in (SUBSET Jobs_) \ {{}}, own \in Scripts, g \in 1..3 :
  \E of \in [js -> IF st = <<>> THEN {"", "test"} ELSE Elems(st) \cup (IF "test" \in Elems(st) THEN {""} ELSE {})] :
    /\ doc = map(opt("image", GImg[g]) \o opt("services", Svc[g]) \o (IF st = <<>> THEN <<>> ELSE <<e("stages", strs(st))>>)
                 \o MapSeq(SetToSortSeq(glob, LAMBDA a, b : Less(a, b)), LAMBDA p : e(p, str("global " \o p)))
                 \o MapSeq(SetToSortSeq(js, LAMBDA a, b : Less(b, a)), LAMBDA n : e(n, Job(n, of[n], own)))
                 \o (IF g = 2 THEN <<e(".tpl", Job("a", "", own)), e("cache", m1("paths", strs(<<"x">>)))>> ELSE <<>>))
    /\ ps = Gitlab(doc) /\ done = {} /\ ran = <<>>
Ps == ps
Next == /\ \E n \in 1..Len(Ps) : /\ Ps[n].name \notin done /\ Elems(Ps[n].depends_on) \subseteq done
                                 /\ done' = done \cup {Ps[n].name} /\ ran' = ran \o NamesOf(Ps[n].steps)
        /\ UNCHANGED <<doc, ps>>
Spec == Init /\ [][Next]_vars
StageOf(j) == GStage(F(doc, j))
Pos(s) == LET q == List(F(doc, "stages")) IN CHOOSE n \in 1..Len(q) : q[n] = s
Ordered == List(F(doc, "stages")) # <<>> => \A i, j \in 1..Len(ran) : i < j => Pos(StageOf(ran[i])) <= Pos(StageOf(ran[j]))
Once == Distinct(ran)
End == Cardinality(done) = Len(Ps) => Elems(ran) = Elems(GJobs(doc))
NeverStuck == Cardinality(done) < Len(Ps) => ENABLED Next
\* no piece of a script is lost
All == \A n \in 1..Len(Ps) : \A k \in 1..Len(Ps[n].steps) : LET s == Ps[n].steps[k] IN
         \A p \in Piece : (\A x \in Elems(ListOrOne(F(F(doc, s.name), p))) : x \in Elems(s.commands)) /\ (p # "script" => \A x \in Elems(ListOrOne(F(doc, p))) : x \in Elems(s.commands))
Emit == done = {} => PrintT(ToJson([doc |-> doc]))
=============================================================================
