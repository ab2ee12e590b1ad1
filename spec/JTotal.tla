------------------------------- MODULE JTotal -------------------------------
(* Observed outcomes of every operation on one input.                        *)
EXTENDS Util
Outcomes == {"ok", "error"}
\* where the yaml library looks for a byte order mark: it looks at the start
\* of its buffer instead of where it is, and leaves the buffer (recorded)
MarkReaders == {"yaml.yaml_parser_scan_to_next_token"}
\* where it insists that a token which begins at the indentation is the first
\* of its line, which one behind a quoted text of several lines is not (recorded)
KeySavers == {"yaml.yaml_parser_save_simple_key"}
VTotal(c) ==
  IF c.o.crash = "panic" /\ c.o.at \in MarkReaders THEN {"panic-mark"}
  ELSE IF c.o.crash = "panic" /\ c.o.at \in KeySavers THEN {"panic-key"}
  ELSE IF c.o.crash # "none" THEN {c.o.crash}
  ELSE LET R == c.o.res IN
       Label(\A k \in DOMAIN R : R[k] \in Outcomes, "outcome")
       \cup Label(c.o.pipes = c.o.specs, "spec")
       \* what cannot be split into documents cannot be parsed, signed or verified
       \cup Label(R["raw"] = "error" => \A k \in {"sign", "verify", "update", "parse "} : R[k] = "error", "half")
       \cup Label(R["parse "] = "ok" => R["raw"] = "ok" /\ R["sign"] = "ok" /\ R["encode "] \in Outcomes /\ R["manifest "] \in Outcomes, "missing")
=============================================================================
