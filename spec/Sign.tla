-------------------------------- MODULE Sign --------------------------------
(***************************************************************************)
(* Signed configurations (yaml/signer).  A text is a sequence of lines;     *)
(* its documents are Stream's.  The MAC is ideal: a table of what is known  *)
(* to be signed, [key, docs, hex]; equal hex means equal key and documents. *)
(***************************************************************************)
EXTENDS Stream

TextOf(q, d) == [k \in 1..Len(d) |-> q[d[k]]]
DocTexts(q) == LET dl == DocLines(q) IN [k \in 1..Len(dl) |-> TextOf(q, dl[k])]
SigKinds == {"kind: signature", "kind: \"signature\"", "kind: 'signature'", "kind: signature # mac", "kind:   signature"}
\* the last kind a document gives
IsSig(d) == LET q == SelectSeq(d, LAMBDA l : HasPrefix(l, "kind:")) IN q # <<>> /\ q[Len(q)] \in SigKinds
BadDoc(d) == \E k \in 1..Len(d) : d[k] \in {"bad: [", "bad: 'x", "- bad", "kind: [a]"}
Broken(ds) == \E k \in 1..Len(ds) : BadDoc(ds[k])
Signed(ds) == SelectSeq(ds, LAMBDA d : ~IsSig(d))          \* what is signed
Unquote(s) == IF Len(s) > 1 /\ Ch(s, 1) = Ch(s, Len(s)) /\ Ch(s, 1) \in {"'", "\""} THEN SubSeq(s, 2, Len(s) - 1) ELSE s
\* the value of the first signature document, "" if none or none readable
Mac(ds) == LET q == SelectSeq(ds, IsSig) IN
           IF q = <<>> THEN ""
           ELSE LET l == SelectSeq(Head(q), LAMBDA x : HasPrefix(x, "hmac: ")) IN IF l = <<>> THEN "" ELSE Unquote(From(l[Len(l)], 7))
\* the text after signing in place
Written(ds, hex) == Flat(MapSeq(Signed(ds), LAMBDA d : <<"---">> \o d)) \o <<"---", "kind: signature", "hmac: " \o hex, "", "...">>
IsHexDigit(ch) == HasSub("0123456789abcdef", ch)
Readable(mac) == mac # "" /\ Len(mac) % 2 = 0 /\ AllCh(mac, IsHexDigit)
Known(t, key, docs, hex) == \E e \in t : e.key = key /\ e.docs = docs /\ e.hex = hex
\* the same text with document boundaries elsewhere
Joined(t, key, docs, hex) == \E e \in t : e.key = key /\ e.docs # docs /\ Flat(e.docs) = Flat(docs) /\ e.hex = hex

\* ---- judging a history ----
\* c.keys[k]: [ok] whether key k is long enough; c.ops; c.refs: a table of true MACs
\* c.o.trace[n]: state after n-1 operations: lines, err, empty, signs[k], ver[k]
Ideal(t) == LET clash == {p \in t \X t : p[1].hex = p[2].hex /\ (p[1].key # p[2].key \/ Flat(p[1].docs) # Flat(p[2].docs))}
                split == {p \in t \X t : p[1].key = p[2].key /\ p[1].docs = p[2].docs /\ p[1].hex # p[2].hex} IN
            Label(clash = {}, "mac_same") \cup Label(split = {}, "mac_differs")
            \cup Label(\A p \in t \X t : p[1].hex = p[2].hex /\ p[1].docs # p[2].docs => Flat(p[1].docs) = <<>>, "boundary")
StateLabels(c, n, ds, t) ==
  LET o == c.o.trace[n] K == 1..Len(c.keys) body == Signed(ds) mac == Mac(ds) IN
  UNION {
    IF Broken(ds) THEN Label(o.signs[k] = "error" /\ o.ver[k] = "error", "broken_accepted")
    ELSE IF ~c.keys[k].ok THEN Label(o.signs[k] = "error", "short_key_signs") \cup Label(o.ver[k] = "error" \/ (~Readable(mac) /\ o.ver[k] = "false"), "short_key_verifies")
    ELSE Label(o.signs[k] # "error", "sign_error")
         \cup LET must == Known(t, k, body, mac) join == Joined(t, k, body, mac) IN
              IF must THEN Label(o.ver[k] = "true", "not_verified")
              ELSE IF join THEN Label(o.ver[k] = "false", "boundary") ELSE Label(o.ver[k] = "false", "forged") : k \in K}
Entries(c, n, ds) ==
  IF Broken(ds) THEN {} ELSE {[key |-> k, docs |-> Signed(ds), hex |-> c.o.trace[n].signs[k]] : k \in {k \in 1..Len(c.keys) : c.keys[k].ok /\ c.o.trace[n].signs[k] # "error"}}
\* operation op took ds (documents before) to observation o
OpLabels(c, op, ds, t, o) ==
  IF op.do \notin {"update", "write", "writeraw"} THEN {}
  ELSE IF Broken(ds) \/ (op.do # "writeraw" /\ ~c.keys[op.key].ok)
       THEN Label(o.err, "no_error") \cup Label(o.empty, "output_on_error")
       ELSE LET hex == IF op.do = "writeraw" THEN op.hmac ELSE (CHOOSE e \in t : e.key = op.key /\ e.docs = Signed(ds)).hex IN
            Label(~o.err, "error") \cup Label(o.lines = Written(ds, hex) \/ (ds = <<>> /\ o.lines = Written(<<<<>>>>, hex)), "written") \cup Label(o.closed, "written")
RECURSIVE Walk(_, _, _, _)
Walk(c, n, ds, t) ==       \* states from n on; ds, t: documents of state n-1 and the table so far
  IF n > Len(c.o.trace) THEN Ideal(t)
  ELSE LET now == TLCEval(DocTexts(c.o.trace[n].lines))
           t2 == TLCEval(t \cup Entries(c, n, now)) IN
       (IF n = 1 THEN {} ELSE OpLabels(c, c.ops[n - 1], ds, t, c.o.trace[n]))
       \cup StateLabels(c, n, now, t2) \cup Walk(c, n + 1, now, t2)
VSign(c) ==
  IF c.o.crash # "none" THEN {"crash"}
  ELSE Walk(c, 1, <<>>, {[key |-> c.refs[k].key, docs |-> c.refs[k].docs, hex |-> c.refs[k].hex] : k \in 1..Len(c.refs)})
=============================================================================
