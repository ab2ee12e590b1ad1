------------------------------- MODULE Judge -------------------------------
(* Judges every recorded case of the file named by the environment.  Each   *)
(* state is one case; a case that the specification does not allow is       *)
(* printed with the clauses it breaks.                                       *)
EXTENDS JStream, JDecode, JCond, JLint, JPlan, Script, Sign, JConvert, JPure, JTotal, Cli, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
W == 8
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Spec == Init /\ [][Next]_i

Verdict(c) ==
  CASE c.j = "stream" -> V01(c)
    [] c.j = "decode" -> V03(c)
    [] c.j = "typed" -> V02(c)
    [] c.j = "json" -> VJson(c)
    [] c.j = "cond" -> V04(c)
    [] c.j = "skip" -> V05(c)
    [] c.j = "lint" -> V06(c)
    [] c.j = "manifest" -> V08(c)
    [] c.j = "compile" -> CompileDiff(c)
    [] c.j = "script" -> VScript(c)
    [] c.j = "sign" -> VSign(c)
    [] c.j = "dind" -> VDind(c)
    [] c.j = "chain" -> VChain(c)
    [] c.j = "convert" -> VConvert(c)
    [] c.j = "matrix" -> VMatrix(c)
    [] c.j = "contain" -> VContain(c)
    [] c.j = "apply" -> VApply(c)
    [] c.j = "pure" -> VPure(c)
    [] c.j = "total" -> VTotal(c)
    [] c.j = "cli" -> VHistory(c)
    [] c.j = "clicompile" -> VCliCompile(c)
    [] c.j = "image" -> VImage(c)
Judged == LET bad == Verdict(Cases[i]) IN bad = {} \/ PrintT(ToJson([bad |-> i, clauses |-> bad]))
=============================================================================
