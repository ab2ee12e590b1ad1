----------------------------- MODULE MC_Convert -----------------------------
(* Files under all names, read line by line: the format depends on the name  *)
(* alone when it is a foreign one, else on some line alone.                   *)
EXTENDS Convert, Json
CONSTANTS MaxLines
Names == {"", ".drone.yml", "bitbucket-pipelines.yml", ".gitlab-ci.yml", "ci/.gitlab-ci.yml", ".gitlab-ci.yaml", "/bitbucket-pipelines.yml", "bitbucket-pipelines.yaml",
          "Bitbucket-pipelines.yml", "gitlab-ci.yml", ".gitlab-ci.yml ", ".travis.yml", "circle.yml", ".circleci/config.yml", "drone.jsonnet"}
Alphabet == {"pipeline:", "pipeline: ", "pipeline: \t ", "pipeline:\r", " pipeline:", "pipeline: # x", "pipeline: {}", "# pipeline:", "kind: pipeline", "", "pipelines:", "Pipeline:",
             "pipeline:x", "\"pipeline\":", "  a: {image: b}", "steps: []", "---", "pipeline :", "name: pipeline:", "pipeline"}
VARIABLES name, lines
vars == <<name, lines>>
Init == name \in Names /\ lines = <<>>
Next == Len(lines) < MaxLines /\ (\E l \in Alphabet : lines' = Append(lines, l)) /\ UNCHANGED name
Spec == Init /\ [][Next]_vars
Foreign == Dispatch(name, lines) \in {"gitlab", "bitbucket"} <=> name \in {".gitlab-ci.yml", "bitbucket-pipelines.yml"}
OneLine == Dispatch(name, lines) = "legacy" => \E n \in 1..Len(lines) : \A pre, post \in {<<>>, <<"x">>} : Dispatch(name, pre \o <<lines[n]>> \o post) = "legacy"
\* once legacy, always legacy; foreign whatever follows
Stays == [][Dispatch(name, lines) # "native" => Dispatch(name, lines)' = Dispatch(name, lines)]_vars
Emit == lines # <<>> => PrintT(ToJson([name |-> name, lines |-> lines, fmt |-> Dispatch(name, lines)]))
=============================================================================
