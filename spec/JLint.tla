------------------------------- MODULE JLint -------------------------------
(* Observed lint verdicts against Lint.tla.                                   *)
EXTENDS Lint
V06(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN {"rejected"}
  ELSE LET rs == Docs(c.docs) IN
       UNION {LET r == rs[i] o == c.o.res[i] ut == o.untrusted = "ok" tr == o.trusted = "ok" IN
         IF r.r = "pipeline"
         THEN Label(Asks(r) # {} => ~ut, "escalation")                         \* C06
              \cup Label(ut => tr, "trust_rejects")
              \cup Label(Unsound(r) = {} => tr, "trusted_sound_rejected")
              \cup Label(Unsound(r) = {} /\ Asks(r) = {} => ut, "untrusted_sound_rejected")
              \cup UNION {Label(~tr, "unsound_" \o u) \cup Label(~ut, "unsound_" \o u) : u \in Unsound(r)}
         ELSE Label(tr = CompleteRes(r) /\ ut = CompleteRes(r), "resource")
         : i \in 1..Len(rs)}
V08(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN {"rejected"}
  ELSE LET rs == Docs(c.docs) bad == ManifestUnsound(rs) IN
       UNION {Label((c.o.manifest[t] = "ok") = (bad = {}), IF bad = {} THEN "sound_rejected" ELSE "accepted_" \o (CHOOSE b \in bad : TRUE)) : t \in {"trusted", "untrusted"}}
=============================================================================
