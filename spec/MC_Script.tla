----------------------------- MODULE MC_Script -----------------------------
(* All scripts of up to MaxC commands, run part by part: what has run is a   *)
(* prefix of what was written, nothing runs after a failure.                 *)
EXTENDS Script, Json
CONSTANT MaxC
Atoms == {[k |-> "mark", n |-> 1], [k |-> "fail", n |-> 2, c |-> 3], [k |-> "exit", c |-> 0], [k |-> "exit", c |-> 4], [k |-> "set", v |-> "v1"],
          [k |-> "get"], [k |-> "probe"], [k |-> "cd"], [k |-> "pwd"], [k |-> "noop"]}
Cmds == {<<a>> : a \in Atoms} \cup {<<[k |-> "fail", n |-> 5, c |-> 1], [k |-> "mark", n |-> 6]>>, <<[k |-> "mark", n |-> 7], [k |-> "mark", n |-> 8]>>}
VARIABLES cmds, todo, s, ran
vars == <<cmds, todo, s, ran>>
Init == cmds = <<>> /\ todo = <<>> /\ s = Start /\ ran = 0
\* write one more command, and let the shell run it if it still runs
Next == /\ Len(cmds) < MaxC
        /\ \E c \in Cmds :
             /\ cmds' = Append(cmds, [ann |-> ToString(Len(cmds) + 1), parts |-> c])
             /\ s' = Exec(s, <<[ann |-> ToString(Len(cmds) + 1), parts |-> c]>>)
             /\ ran' = IF Running(s) THEN ran + 1 ELSE ran
             /\ todo' = IF Running(s) THEN todo ELSE Append(todo, c)
Spec == Init /\ [][Next]_vars
Announced == SelectSeq(s.ev, LAMBDA e : HasPrefix(e, "+ "))
InOrder == Announced = [k \in 1..ran |-> "+ " \o ToString(k)]
Compositional == s.ev = Exec(Start, cmds).ev /\ s.code = Exec(Start, cmds).code
StopsAtFailure == ~Running(s) <=> \E k \in 1..Len(cmds) : \E p \in Elems(cmds[k].parts) : p.k \in {"fail", "exit"}
Status == LET K == {k \in 1..Len(cmds) : \E p \in Elems(cmds[k].parts) : p.k \in {"fail", "exit"}} IN
          K # {} => ran = Min(K) /\ \E p \in Elems(cmds[Min(K)].parts) : p.k \in {"fail", "exit"} /\ p.c = s.code
Still == [][~Running(s) => s' = s]_vars
Emit == PrintT(ToJson([cmds |-> [k \in 1..Len(cmds) |-> cmds[k].parts]]))
=============================================================================
