------------------------------ MODULE RunPlans ------------------------------
(* Plans observed from the compiler, executed in every way.  A case has the  *)
(* accepted pipeline (res) and what it compiled to (spec).                   *)
EXTENDS Runner, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES n, need
vars == <<n, need, plan, st, err>>
Init == /\ n \in 1..Len(Cases) /\ need = Need(Cases[n].res) /\ RInit(Cases[n].spec.steps)
Next == UNCHANGED <<n, need>> /\ Cases[n].deep /\ RNext
Spec == Init /\ [][Next]_vars
\* mounts of declared and of provided volumes, and files, are there
Resolved(c) ==
  LET vols == Elems(c.spec.volumes) files == Elems(c.spec.files) decl == Elems(c.res.volumes) \cup {"workspace", "_docker_socket"} IN
  Label(\A i \in 1..Len(c.spec.steps) : Elems(c.spec.steps[i].mounts) \cap decl \subseteq vols, "mount")
  \cup Label(\A i \in 1..Len(c.spec.steps) : Elems(c.spec.steps[i].files) \subseteq files, "file")
  \cup Label(Runnable(c.spec.steps), "graph")
  \cup Label(Distinct(MapSeq(c.spec.steps, LAMBDA s : s.name)), "twice")
Judged == LET bad == Faults(need) \cup (IF \A i \in 1..N_ : st[i] = "wait" THEN Resolved(Cases[n]) ELSE {}) IN
          bad = {} \/ PrintT(ToJson([bad |-> n, clauses |-> bad]))
=============================================================================
