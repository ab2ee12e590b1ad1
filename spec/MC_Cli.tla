-------------------------------- MODULE MC_Cli -------------------------------
(* Histories of commands on one file.  A file is one of a few configurations, *)
(* as written or as formatted, with or without a signature.                   *)
EXTENDS Util, Json
CONSTANT MaxOps
Bases == {"good", "priv", "dup", "broken", "shape", "legacy", "nopipe"}  \* and "converted"
Raw(b) == b # "broken"                       \* splits into documents
Parses(b) == b \in {"good", "priv", "dup", "nopipe", "converted"}
Lints(b, p) == b \in {"good", "nopipe", "converted"} \/ (b = "priv" /\ p)
Named(b) == CASE b \in {"good", "priv"} -> {"one", "two"} [] b = "dup" -> {"one"} [] b = "converted" -> {"default"} [] OTHER -> {}
NoSig == [key |-> "", base |-> "", form |-> "", top |-> FALSE]
VARIABLES base,    \* what is configured
          form,    \* "raw" or "formatted"
          sig,     \* the signature it carries: key and what was signed; top: not where saving puts it
          ops, start
vars == <<base, form, sig, ops, start>>
Verifies(k) == sig.key = k /\ sig.base = base /\ sig.form = form
\* some files come with a signature at their top, good or of another text
Given(b) == {NoSig} \cup (IF b \in {"broken", "legacy"} THEN {} ELSE {[key |-> "k1", base |-> x, form |-> "raw", top |-> TRUE] : x \in {b, "other"}})
Init == base \in Bases /\ form = "raw" /\ sig \in Given(base) /\ ops = <<>> /\ start = [base |-> base, sig |-> sig]
Op(o, ok, changed) == ops' = Append(ops, [op |-> o, ok |-> ok, changed |-> changed]) /\ UNCHANGED start
Stay(o, ok) == Op(o, ok, FALSE) /\ UNCHANGED <<base, form, sig>>
Fmt(save) == LET o == [cmd |-> "fmt", save |-> save] IN
  IF ~Parses(base) \/ ~save \/ form = "formatted" THEN Stay(o, Parses(base))
  ELSE Op(o, TRUE, TRUE) /\ form' = "formatted" /\ UNCHANGED <<base, sig>>
\* only a configuration of another dialect is converted; the signature of the old text goes with it
Foreign == base = "legacy"
Convert(save) == LET o == [cmd |-> "convert", save |-> save] IN
  IF ~save \/ ~Foreign THEN Stay(o, TRUE)
  ELSE Op(o, TRUE, TRUE) /\ base' = "converted" /\ form' = "formatted" /\ sig' = NoSig
Lint(p) == Stay([cmd |-> "lint", priv |-> p], Lints(base, p))
Sign(k, save) == LET o == [cmd |-> "sign", key |-> k, save |-> save] IN
  IF ~Raw(base) \/ ~save THEN Stay(o, Raw(base))
  ELSE Op(o, TRUE, ~Verifies(k) \/ sig.top) /\ sig' = [key |-> k, base |-> base, form |-> form, top |-> FALSE] /\ UNCHANGED <<base, form>>
Verify(k) == Stay([cmd |-> "verify", key |-> k], Raw(base) /\ Verifies(k))
Compile(n) == Stay([cmd |-> "compile", name |-> n], Named(base) # {} /\ (n = "" \/ n \in Named(base)))
Next == /\ Len(ops) < MaxOps
        /\ \/ \E s \in BOOLEAN : Fmt(s) \/ Convert(s) \/ Lint(s) \/ \E k \in {"k1", "k2"} : Sign(k, s)
           \/ \E k \in {"k1", "k2"} : Verify(k)
           \/ \E n \in {"", "two", "zzz"} : Compile(n)
Spec == Init /\ [][Next]_vars
Done == ops'[Len(ops')]
\* a file changes only when a command that may save did, and succeeded
OnlySaves == [][<<base, form, sig>>' # <<base, form, sig>> => Done.op.cmd \in {"fmt", "convert", "sign"} /\ Done.op.save /\ Done.ok]_vars
ChangedSays == [][Done.changed <=> <<base, form, sig>>' # <<base, form, sig>>]_vars
\* what verifies was signed with that key, and nothing but a signature changed since
Honest == \A k \in {"k1", "k2"} : Verifies(k) =>
  \/ sig = start.sig /\ \A j \in 1..Len(ops) : ~ops[j].changed
  \/ \E i \in 1..Len(ops) : /\ ops[i].op.cmd = "sign" /\ ops[i].op.save /\ ops[i].ok /\ ops[i].op.key = k
                         /\ \A j \in (i + 1)..Len(ops) : ~ops[j].changed
\* converting and formatting are done once
Once == \A i, j \in 1..Len(ops) : i < j /\ ops[i].changed /\ ops[j].changed /\ ops[i].op.cmd = ops[j].op.cmd => ops[i].op.cmd = "sign"
Emit == Len(ops) < MaxOps \/ PrintT(ToJson([start |-> start, ops |-> ops]))
=============================================================================
