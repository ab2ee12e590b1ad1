----------------------------- MODULE RunTraces -----------------------------
(* Executions recorded from the runtime, on plans of the compiler: each must *)
(* be a behaviour of Runner, from beginning to end.  Cases whose trace is    *)
(* accepted are printed.                                                     *)
EXTENDS Runner, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES n, l, need
vars == <<n, l, need, plan, st, err>>
Init == /\ n \in 1..Len(Cases) /\ l = 0 /\ need = Need(Cases[n].res) /\ RInit(Cases[n].spec.steps)
Ev(k) == Cases[n].trace[k]
Next == /\ UNCHANGED <<n, need>>
        /\ \/ UNCHANGED l /\ \E i \in 1..N_ : Pass(i) \/ Choose_(i) \/ \E c \in Codes : Settle(i, c)
           \/ /\ l < Len(Cases[n].trace) /\ l' = l + 1
              /\ \E i \in 1..N_ : /\ plan[i].name = Ev(l + 1).n
                                  /\ \/ Ev(l + 1).e = "begin" /\ Begin(i)
                                     \/ Ev(l + 1).e = "end" /\ End(i, Ev(l + 1).c)
Spec == Init /\ [][Next]_vars
Accepted == (l = Len(Cases[n].trace) /\ AllOver /\ err = Cases[n].final) => PrintT(ToJson([ok |-> n]))
Judged == LET bad == Faults(need) IN bad = {} \/ PrintT(ToJson([bad |-> n, clauses |-> bad]))
=============================================================================
