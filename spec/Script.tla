------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* The shell that runs a step's commands (yaml/compiler/script_*.go).       *)
(* A command is a sequence of parts, each with a known effect:              *)
(*   mark n: print n        fail n c: print n, status c     exit c          *)
(*   set v: X := v          get: print X                    probe: print    *)
(*   cd: enter the sub directory   pwd: print the directory   which         *)
(*   credentials variables are set           noop                           *)
(* The machine announces a command, runs its parts, stops at a failure.     *)
(***************************************************************************)
EXTENDS Util

Start == [x |-> "unset", dir |-> "w", code |-> -1, ev |-> <<>>]
Running(s) == s.code = -1
Say(s, t) == [s EXCEPT !.ev = Append(@, "M:" \o t)]
Stop(s, c) == [s EXCEPT !.code = c]
Part(s, p) ==
  CASE p.k = "mark" -> Say(s, ToString(p.n))
    [] p.k = "fail" -> Stop(Say(s, ToString(p.n)), p.c)
    [] p.k = "exit" -> Stop(s, p.c)
    [] p.k = "set" -> [s EXCEPT !.x = p.v]
    [] p.k = "get" -> Say(s, "x=" \o s.x)
    [] p.k = "probe" -> Say(s, "uuuu")
    [] p.k = "cd" -> [s EXCEPT !.dir = "sub"]
    [] p.k = "pwd" -> Say(s, "in=" \o s.dir)
    [] p.k = "noop" -> s
RECURSIVE Parts(_, _), Exec(_, _)
Parts(s, q) == IF q = <<>> \/ ~Running(s) THEN s ELSE Parts(Part(s, Head(q)), Tail(q))
Announce(s, a) == [s EXCEPT !.ev = Append(@, "+ " \o a)]
\* cmds: [ann |-> announcement, parts |-> ..]
Exec(s, cmds) == IF cmds = <<>> \/ ~Running(s) THEN s ELSE Exec(Parts(Announce(s, Head(cmds).ann), Head(cmds).parts), Tail(cmds))
Result(cmds) == LET s == Exec(Start, cmds) IN [s EXCEPT !.code = IF @ = -1 THEN 0 ELSE @]
Netrc(e) == IF e.machine = "" THEN <<>> ELSE <<"machine " \o e.machine, "login " \o e.username, "password " \o e.password>>

\* ---- judging an execution ----
\* c.steps[i].cmds[j]: [text, ann, exact, parts]; c.o.steps[i]: observation of that step
EvMatch(want, got, exact) == IF exact THEN want = got ELSE HasPrefix(got, want)
RunDiff(cmds, e, run) ==
  LET r == Result(cmds)
      \* which announcements are reproduced exactly by any shell
      ex(k) == LET n == Cardinality({m \in 1..k : HasPrefix(r.ev[m], "+ ")}) IN ~HasPrefix(r.ev[k], "+ ") \/ cmds[n].exact
      ok == Len(run.lines) = Len(r.ev) /\ \A k \in 1..Len(r.ev) : EvMatch(r.ev[k], run.lines[k], ex(k))
      outs(q) == SelectSeq(q, LAMBDA l : HasPrefix(l, "M:")) IN
  Label(run.code = r.code, "status") \cup Label(outs(run.lines) = outs(r.ev), "executed") \cup Label(ok, "announced")
  \cup Label(run.netrc = Netrc(e), "netrc") \cup Label(run.netrc = <<>> \/ run.mode = 384, "netrc_mode")
\* windows: the script cannot be run here; its lines are judged
QuotesDoubled(s) == ~HasSub(StrReplace(s, "''", ""), "'")
WinUnset == {"CI_NETRC_USERNAME", "CI_NETRC_PASSWORD", "DRONE_NETRC_USERNAME", "DRONE_NETRC_PASSWORD"}
WinDiff(cmds, lines) ==
  LET N == Len(cmds) I == {k \in 1..Len(lines) : lines[k] = "$ErrorActionPreference = 'Stop';"} IN
  IF Cardinality(I) # 1 THEN {"win_stop"}
  ELSE LET s == CHOOSE k \in I : TRUE body == SubSeq(lines, s + 1, Len(lines))
           head == SubSeq(lines, 1, s - 1) IN
    Label(\A v \in WinUnset : \E k \in 1..Len(head) : head[k] = "[Environment]::SetEnvironmentVariable(\"" \o v \o "\", $null);", "win_unset")
    \cup Label(Len(body) = 2 * N /\ \A k \in 1..N : body[2 * k] = "& " \o cmds[k].text \o "; if ($LASTEXITCODE -ne 0) {exit $LASTEXITCODE}", "win_commands")
    \cup Label(Len(body) = 2 * N => \A k \in 1..N : LET a == body[2 * k - 1] IN
                 HasPrefix(a, "Write-Output ('") /\ HasSuffix(a, "');") /\ QuotesDoubled(SubSeq(a, 16, Len(a) - 3)), "win_announce")
VScript(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE IF ~c.o.ok THEN {"rejected"}
  ELSE IF Len(c.o.steps) # Len(c.steps) THEN {"count"}
  ELSE UNION {LET o == c.o.steps[k] cmds == c.steps[k].cmds IN
    IF ~o.found THEN {"no_script"}
    ELSE IF c.win THEN WinDiff(cmds, o.lines)
    ELSE UNION {RunDiff(cmds, c.env, o.runs[m]) : m \in 1..Len(o.runs)} \cup Label(o.mode = 511, "file_mode") : k \in 1..Len(c.steps)}
=============================================================================
