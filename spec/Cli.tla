-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line (main.go): what each command must leave behind, and     *)
(* the plan that compile makes of its options.                              *)
(***************************************************************************)
EXTENDS JCompile

DoesSave(o) == Has(o, "save") /\ o.save
\* one command: s.op what was run; s.ok it exited with zero; s.lib the library's
\* answer for the content the file had; same, result: the file still is what it
\* was, or is what the library made; printed: that result was printed
VCommand(s) ==
  LET ok == s.lib = "ok" IN
  Label(s.ok = ok, "exit")
  \cup Label(DoesSave(s.op) /\ ok => s.result, "result")
  \cup Label(~(DoesSave(s.op) /\ ok) => s.same, IF s.op.full /\ DoesSave(s.op) THEN "lost" ELSE "touched")
  \cup Label(ok /\ ~DoesSave(s.op) /\ s.op.cmd \in {"fmt", "convert", "sign"} => s.printed, "printed")
  \cup Label(ok \/ s.silent, "printed")
  \cup Label(s.clean, "litter") \cup Label(s.mode, "mode")
  \cup Label(~Has(s, "want") \/ s.want.ok = s.ok, "outcome")
  \cup Label(~Has(s, "want") \/ s.want.changed = ~s.same, "change")
VHistory(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE UNION {VCommand(IF Has(c, "want") THEN c.o.steps[i] @@ [want |-> c.want[i]] ELSE c.o.steps[i]) : i \in 1..Len(c.o.steps)}

\* the options of compile; f holds the flags that were given
Flag(f, k, d) == IF Has(f, k) THEN f[k] ELSE d
Envs(f) ==
  LET ref == Flag(f, "ref", "") IN
  [k \in {"DRONE_COMMIT_BRANCH", "DRONE_COMMIT_SHA", "DRONE_COMMIT_REF", "DRONE_REMOTE_URL", "DRONE_BUILD_EVENT"} \cup (IF HasPrefix(ref, "refs/tags/") THEN {"DRONE_TAG"} ELSE {}) |->
    CASE k = "DRONE_COMMIT_BRANCH" -> Flag(f, "branch", "") [] k = "DRONE_COMMIT_SHA" -> Flag(f, "sha", "") [] k = "DRONE_COMMIT_REF" -> ref
      [] k = "DRONE_REMOTE_URL" -> Flag(f, "remote", "") [] k = "DRONE_BUILD_EVENT" -> Flag(f, "event", "") [] k = "DRONE_TAG" -> TrimPrefix(ref, "refs/tags/")]
CliTransforms(f) == <<
  [F |-> "auths", Auths |-> Flag(f, "registry", <<>>)],
  [F |-> "environ", Map |-> Flag(f, "env", Empty)],
  [F |-> "environ", Map |-> Envs(f)],
  [F |-> "labels", Map |-> Flag(f, "label", Empty)],
  [F |-> "limits", Mem |-> Flag(f, "memory", 0), CPU |-> 0],
  [F |-> "netrc", Map |-> [machine |-> Flag(f, "machine", ""), username |-> Flag(f, "username", ""), password |-> Flag(f, "password", "")]],
  [F |-> "networks", List |-> Flag(f, "network", <<>>)],
  [F |-> "proxy", Env |-> Flag(f, "proxyenv", Empty)],
  [F |-> "secrets", Map |-> Flag(f, "secret", Empty)],
  [F |-> "volumes", Map |-> Flag(f, "volume", Empty)]>>
CliOpts(f) ==
  [creds |-> Concat(MapSeq(Flag(f, "creds", <<>>), LAMBDA u : u \o "\n")), usedind |-> TRUE, dind |-> Flag(f, "dind", <<"plugins/docker">>), host |-> "", hostmount |-> FALSE,
   skip |-> [branch |-> Flag(f, "branch", ""), cron |-> Flag(f, "cron", ""), event |-> Flag(f, "event", ""), instance |-> Flag(f, "instance", ""), ref |-> Flag(f, "ref", ""), repo |-> Flag(f, "repo", ""),
             target |-> Flag(f, "deploy", ""), action |-> ""]]
Named_(docs, f) == SelectSeq(Pipelines(Docs(docs)), LAMBDA p : Flag(f, "name", "") \in {"", p.name})
\* flags that cannot be
BadFlags(f) == Has(f, "event") /\ f.event \notin {"push", "pull_request", "tag", "deployment"}
VCliCompile(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE LET f == c.flags q == Named_(c.docs, f) good == q # <<>> /\ ~BadFlags(f) /\ ~Has(f, "wrong") IN
       Label(c.o.ok = good, "exit") \cup Label(c.o.same /\ c.o.clean /\ c.o.mode, "touched")
       \cup (IF ~c.o.ok THEN Label(c.o.silent, "printed")
             ELSE IF ~good THEN {}
             ELSE LET p == IF Flag(f, "clone", FALSE) THEN Head(q) ELSE [Head(q) EXCEPT !.clone.disable = TRUE]
                      ts == CliTransforms(f) IN
                  DiffPlan(c.o.spec, ApplyAll(ts, Plan(p, CliOpts(f))), c.o.json, JsonOf(p), TRUE))
=============================================================================
