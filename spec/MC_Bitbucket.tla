---------------------------- MODULE MC_Bitbucket ----------------------------
(* Pipelines by pattern, and the refs that they are for.                      *)
EXTENDS Convert, Trees, Json
CONSTANTS MaxTags, MaxBranches
TagPats == {"v*", "v1.?", "*", "v1"}
BranchPats == {"master", "feature/*", "*", "v[0-9]", "*/*"}
Refs == {"refs/heads/master", "refs/heads/feature/a", "refs/heads/feature/a/b", "refs/heads/v1", "refs/heads/dev", "refs/tags/v1", "refs/tags/v1.2", "refs/tags/master", "refs/tags/a/b", "refs/pull/1/head", "", "v1"}
Steps(w) == seq(<<m1("step", map(<<e("script", strs(<<w>>))>>)), m1("step", map(<<e("name", str(w)), e("image", str("own")), e("script", strs(<<"x", w>>))>>)),
                 m1("parallel", seq(<<m1("step", m1("script", strs(<<w, "p">>))), m1("step", m1("name", str("q")))>>))>>)
VARIABLES tags, branches, dflt, ref, script
vars == <<tags, branches, dflt, ref, script>>
By(kind, S) == map(MapSeq(SetToSortSeq(S, LAMBDA a, b : Less(b, a)), LAMBDA p : e(p, Steps(kind \o " " \o p))))
doc == map(<<e("image", str("glob")), e("pipelines", map((IF dflt THEN <<e("default", Steps("default"))>> ELSE <<>>) \o (IF tags = {} THEN <<>> ELSE <<e("tags", By("tag", tags))>>)
           \o (IF branches = {} THEN <<>> ELSE <<e("branches", By("branch", branches))>>)))>>)
Init == /\ tags \in {S \in SUBSET TagPats : Cardinality(S) <= MaxTags} /\ branches \in {S \in SUBSET BranchPats : Cardinality(S) <= MaxBranches}
        /\ dflt \in BOOLEAN /\ ref \in Refs
        /\ script = LET got == BPipeline(doc, ref) IN IF got = <<>> THEN "" ELSE List(F(got[1], "script"))[1]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
OfTag == HasPrefix(ref, "refs/tags/")
OfBranch == HasPrefix(ref, "refs/heads/")
TagFirst == OfTag => (HasPrefix(script, "tag ") <=> \E p \in tags : PathMatch(p, TrimPrefix(ref, "refs/tags/")))
\* a full branch ref is never taken for a tag
BranchNext == OfBranch => ~HasPrefix(script, "tag ") /\ (HasPrefix(script, "branch ") <=> \E p \in branches : PathMatch(p, TrimPrefix(ref, "refs/heads/")))
Chosen_ == \A k \in {"tag ", "branch "} : HasPrefix(script, k) => PathMatch(TrimPrefix(script, k), TrimPrefix(ref, IF k = "tag " THEN "refs/tags/" ELSE "refs/heads/"))
Default == script = "default" => dflt
Emit == PrintT(ToJson([doc |-> doc, ref |-> ref]))
=============================================================================
