------------------------------ MODULE MC_Parse ------------------------------
(* Parsing a manifest, document by document: typed by kind, all or nothing.   *)
EXTENDS Util, Json
CONSTANT MaxD
Kinds == {"cron", "secret", "signature", "registry", "pipeline", "deploy", ""}
Faults == {"none", "syntax", "shape"}
Doc == [kind : Kinds, fault : Faults]
VARIABLES docs,     \* the documents of the stream
          next,     \* how many have been read
          made,     \* the resources made so far
          res       \* "reading", "ok" or "error"
vars == <<docs, next, made, res>>
TypeOf(k) == IF k \in {"cron", "secret", "signature", "registry"} THEN k ELSE "pipeline"
Good(d) == d.fault = "none" /\ d.kind # ""
Init == /\ docs \in UNION {[1..n -> Doc] : n \in 0..MaxD}
        /\ \A i \in 1..Len(docs) : docs[i].kind = "" => docs[i].fault = "none"
        /\ next = 0 /\ made = <<>> /\ res = "reading"
Read == /\ res = "reading" /\ next < Len(docs) /\ next' = next + 1 /\ UNCHANGED docs
        /\ IF Good(docs[next + 1]) THEN made' = Append(made, TypeOf(docs[next + 1].kind)) /\ res' = res
           ELSE made' = <<>> /\ res' = "error"
Finish == res = "reading" /\ next = Len(docs) /\ res' = "ok" /\ UNCHANGED <<docs, next, made>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllOrNothing == /\ res = "ok" => Len(made) = Len(docs) /\ \A i \in 1..Len(docs) : Good(docs[i]) /\ made[i] = TypeOf(docs[i].kind)
                /\ res = "error" => made = <<>> /\ \E i \in 1..Len(docs) : ~Good(docs[i])
InOrder == res = "reading" => Len(made) = next
Ends == <>(res \in {"ok", "error"})
Emit == res = "reading" \/ PrintT(ToJson([docs |-> docs, ok |-> res = "ok"]))
=============================================================================
