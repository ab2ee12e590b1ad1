------------------------------ MODULE ImageRef ------------------------------
(***************************************************************************)
(* Image names (yaml/compiler/image).  A reference is                       *)
(*   [host[:port]/] path [:tag] [@digest]                                   *)
(* with host docker.io and path library/x when omitted.                     *)
(***************************************************************************)
EXTENDS Util

IsHex(c) == HasSub("0123456789abcdef", c)
IsHexAny(c) == HasSub("0123456789abcdefABCDEF", c)
IsWord(c) == IsAlnum(c) \/ c = "_"
IsId64(s) == Len(s) = 64 /\ AllCh(s, IsHex)

\* path component: alphanumerics joined by . _ __ or any number of -
RECURSIVE CompTail(_, _)
CompTail(s, i) ==    \* s[1..i-1] ends with an alphanumeric
  IF i > Len(s) THEN TRUE
  ELSE IF IsAlnumLower(Ch(s, i)) THEN CompTail(s, i + 1)
  ELSE IF Ch(s, i) = "." THEN i < Len(s) /\ IsAlnumLower(Ch(s, i + 1)) /\ CompTail(s, i + 1)
  ELSE IF Ch(s, i) = "_" THEN LET j == IF i < Len(s) /\ Ch(s, i + 1) = "_" THEN i + 2 ELSE i + 1 IN
                               j <= Len(s) /\ IsAlnumLower(Ch(s, j)) /\ CompTail(s, j)
  ELSE IF Ch(s, i) = "-" THEN LET J == {j \in (i + 1)..Len(s) : Ch(s, j) # "-"} IN
                               J # {} /\ IsAlnumLower(Ch(s, Min(J))) /\ CompTail(s, Min(J))
  ELSE FALSE
ValidComp(s) == Len(s) > 0 /\ IsAlnumLower(Ch(s, 1)) /\ CompTail(s, 2)
ValidPath(s) == \A i \in 1..Len(Split(s, "/")) : ValidComp(Split(s, "/")[i])

IsHostCh(c) == IsAlnum(c) \/ c = "-"
ValidLabel(s) == Len(s) > 0 /\ AllCh(s, IsHostCh) /\ IsAlnum(Ch(s, 1)) /\ IsAlnum(Ch(s, Len(s)))
ValidHost(s) ==
  LET i == Index(s, ":")
      h == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
      p == IF i = 0 THEN "0" ELSE From(s, i + 1) IN
  Len(p) > 0 /\ AllCh(p, IsDigit) /\ (\A k \in 1..Len(Split(h, ".")) : ValidLabel(Split(h, ".")[k]))
IsTagCh(c) == IsWord(c) \/ c = "." \/ c = "-"
ValidTag(s) == Len(s) \in 1..128 /\ IsWord(Ch(s, 1)) /\ AllCh(s, IsTagCh)
\* only sha256 digests, as images use
ValidDigest(s) == HasPrefix(s, "sha256:") /\ Len(s) = 71 /\ AllCh(From(s, 8), IsHex)

NoRef == [ok |-> FALSE, host |-> "", path |-> "", tag |-> "", digest |-> ""]
Ref(s) ==
  IF IsId64(s) \/ ValidDigest(s) THEN NoRef     \* bare identifiers name no repository
  ELSE LET
    sl == Index(s, "/")
    first == IF sl = 0 THEN "" ELSE SubSeq(s, 1, sl - 1)
    isHost == sl # 0 /\ (HasSub(first, ".") \/ HasSub(first, ":") \/ first = "localhost")
    host0 == IF isHost THEN first ELSE "docker.io"
    host == IF host0 = "index.docker.io" THEN "docker.io" ELSE host0
    rest0 == IF isHost THEN From(s, sl + 1) ELSE s
    rest == IF host = "docker.io" /\ ~HasSub(rest0, "/") THEN "library/" \o rest0 ELSE rest0
    at == Index(rest, "@")
    digest == IF at = 0 THEN "" ELSE From(rest, at + 1)
    nt == IF at = 0 THEN rest ELSE SubSeq(rest, 1, at - 1)
    co == Index(nt, ":")
    tag == IF co = 0 THEN "" ELSE From(nt, co + 1)
    path == IF co = 0 THEN nt ELSE SubSeq(nt, 1, co - 1)
  IN IF /\ ValidHost(host) /\ ValidPath(path)
        /\ co # 0 => ValidTag(tag)
        /\ at # 0 => ValidDigest(digest)
        /\ Len(host) + 1 + Len(path) <= 255
     THEN [ok |-> TRUE, host |-> host, path |-> path, tag |-> tag, digest |-> digest]
     ELSE NoRef

Full(r) == r.host \o "/" \o r.path
Expand(s) ==
  LET r == Ref(s) IN
  IF ~r.ok THEN s
  ELSE Full(r) \o (IF r.tag = "" /\ r.digest = "" THEN ":latest" ELSE IF r.tag = "" THEN "" ELSE ":" \o r.tag)
               \o (IF r.digest = "" THEN "" ELSE "@" \o r.digest)
Familiar(r) ==
  IF r.host # "docker.io" THEN Full(r)
  ELSE LET q == Split(r.path, "/") IN IF Len(q) = 2 /\ q[1] = "library" THEN q[2] ELSE r.path
Trim(s) == LET r == Ref(s) IN IF r.ok THEN Familiar(r) ELSE s
MatchHost(s, h) == Ref(s).ok /\ Ref(s).host = (IF h = "index.docker.io" THEN "docker.io" ELSE h)
SameImage(a, b) == Trim(a) = Trim(b)
SameTag(a, b) == Expand(a) = Expand(b)
\* the alias of an image built by the step known as id
Alias(s, id) == LET r == Ref(s) IN (IF r.ok THEN Full(r) ELSE s) \o ":" \o id
=============================================================================
