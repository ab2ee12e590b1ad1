------------------------------- MODULE Runner -------------------------------
(***************************************************************************)
(* How the runtime executes a plan (drone-runtime): step by step when no    *)
(* step has dependencies, else as a graph of named steps, each of which     *)
(* runs, or is passed over, once all it depends on is done.  A step that    *)
(* ends with 78 interrupts the run: nothing more is started.                *)
(***************************************************************************)
EXTENDS Util
VARIABLES plan, st, err

Codes == {0, 1, 78}
N_ == Len(plan)
Serial(q) == \A i \in 1..Len(q) : q[i].depends_on = <<>>
\* of several steps of one name the graph has the last
VertexOf(q, n) == Max({i \in 1..Len(q) : q[i].name = n})
IsVertex(q, i) == VertexOf(q, q[i].name) = i
NamesOf(q) == {q[i].name : i \in 1..Len(q)}
Dangling(q) == \E i \in 1..Len(q) : ~(Elems(q[i].depends_on) \subseteq NamesOf(q))
RECURSIVE Prune(_, _)
Prune(q, left) ==
  LET go == {n \in left : \A i \in 1..Len(q) : q[i].name = n => Elems(q[i].depends_on) \cap left = {}} IN
  IF go = {} THEN left ELSE Prune(q, left \ go)
Cyclic(q) == Prune(q, NamesOf(q)) # {}
Runnable(q) == Serial(q) \/ (~Dangling(q) /\ ~Cyclic(q))

Over_ == {"done", "skip"}
Ready(i) ==
  IF Serial(plan) THEN \A j \in 1..(i - 1) : st[j] \in Over_
  ELSE IsVertex(plan, i) /\ Runnable(plan)
       /\ \A j \in 1..N_ : plan[j].name = plan[i].name => \A d \in Elems(plan[j].depends_on) : st[VertexOf(plan, d)] \in Over_
Passes(i) == err = "int" \/ plan[i].run_policy = "never" \/ (err # "none" /\ plan[i].run_policy = "on-success") \/ (err = "none" /\ plan[i].run_policy = "on-failure")
Error(i, c) == IF plan[i].ignore_err \/ c = 0 THEN err ELSE IF c = 78 THEN "int" ELSE "fail"
Step(i, s) == st' = [st EXCEPT ![i] = s]

\* a step is passed over, or chosen to run, begins, ends with a code, and its result is taken in
Pass(i) == st[i] = "wait" /\ Ready(i) /\ Passes(i) /\ Step(i, "skip") /\ UNCHANGED <<plan, err>>
Choose_(i) == st[i] = "wait" /\ Ready(i) /\ ~Passes(i) /\ Step(i, "go") /\ UNCHANGED <<plan, err>>
Begin(i) == st[i] = "go" /\ Step(i, IF plan[i].detach THEN "done" ELSE "run") /\ UNCHANGED <<plan, err>>
End(i, c) == st[i] = "run" /\ Step(i, ToString(c)) /\ UNCHANGED <<plan, err>>
Settle(i, c) == st[i] = ToString(c) /\ Step(i, "done") /\ err' = Error(i, c) /\ UNCHANGED plan

\* the same without the moments in between
Start(i) == st[i] = "wait" /\ Ready(i) /\ ~Passes(i) /\ Step(i, IF plan[i].detach THEN "done" ELSE "run") /\ UNCHANGED <<plan, err>>
Finish(i, c) == st[i] = "run" /\ Step(i, "done") /\ err' = Error(i, c) /\ UNCHANGED plan
RNext == \E i \in 1..N_ : Pass(i) \/ Start(i) \/ \E c \in Codes : Finish(i, c)
RInit(q) == plan = q /\ st = [i \in 1..Len(q) |-> "wait"] /\ err = "none"

AllOver == \A i \in 1..N_ : st[i] \in Over_
Moves == \E i \in 1..N_ : st[i] \notin {"wait"} \cup Over_ \/ (st[i] = "wait" /\ Ready(i))
Started(i) == st[i] \notin {"wait", "skip"}

\* what was declared: names and dependencies of the containers, and whether there is a clone
\* nd: [clone |-> BOOLEAN, names |-> sequence, deps |-> sequence of sequences]
Need(p) ==
  LET q == SelectSeq(p.services, LAMBDA c : ~c.nil) \o SelectSeq(p.steps, LAMBDA c : ~c.nil) IN
  [clone |-> ~p.clone.disable, names |-> MapSeq(q, LAMBDA c : c.name), deps |-> MapSeq(q, LAMBDA c : c.depends_on)]
At_(n) == {i \in 1..N_ : plan[i].name = n}
IsOver(n) == At_(n) # {} /\ \A i \in At_(n) : st[i] \in Over_
IsStarted(n) == \E i \in At_(n) : Started(i)
Faults(nd) ==
  Label(AllOver \/ Moves, "stuck")
  \cup Label(\A j \in 1..Len(nd.names) : At_(nd.names[j]) # {}, "lost")
  \cup Label(nd.clone => \A j \in 1..Len(nd.names) : IsStarted(nd.names[j]) => IsOver("clone"), "early_clone")
  \cup Label(\A j \in 1..Len(nd.names) : IsStarted(nd.names[j]) => \A d \in Elems(nd.deps[j]) : IsOver(d), "early_dep")
  \cup Label((\A j \in 1..Len(nd.deps) : nd.deps[j] = <<>>) =>
             \A j \in 1..Len(nd.names) : IsStarted(nd.names[j]) => \A k \in 1..(j - 1) : IsOver(nd.names[k]), "order")
=============================================================================
