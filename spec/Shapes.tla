------------------------------- MODULE Shapes -------------------------------
(* Values of every field, in every shape a configuration may give them.      *)
EXTENDS Trees
Strs == {nul, str(""), str("a"), str("x: y"), str("true"), str("a\nb")}
Lists == {nul, seq(<<>>), seq(<<nul>>), seq(<<str("a"), str("")>>), seq(<<str("- a"), str("null")>>)}
StrMaps == {nul, map(<<>>), m1("k", nul), m2("b", str("#"), "a", str("0")), m2("k", str("1"), "K", str("2"))}
Rec2(k, l) == {nul, map(<<>>), m1(k, str("a")), m1(l, str("")), m2(k, str("~"), l, str("b"))}
Conds_ == {nul, map(<<>>), m1("branch", str("a")), m1("ref", nul), m1("event", seq(<<>>)), m1("repo", m1("exclude", seq(<<str("!a")>>))),
           m2("cron", m2("include", str("*"), "exclude", seq(<<str("b"), str("c")>>)), "matrix", m1("a", str("b"))), m1("matrix", m1("a", str("b"))), m1("status", m1("include", seq(<<>>)))}
Opaque == {nul, str("1"), str("a"), int(1), bool(FALSE), seq(<<>>), seq(<<nul, seq(<<>>), map(<<>>)>>), seq(<<seq(<<str("a")>>), m2("b", int(0), "a", seq(<<str("")>>))>>),
           map(<<>>), m2("b", map(<<>>), "a", nul), m1("a", m1("b", seq(<<m1("c", str("d"))>>))), m1("from_secret", str("s")), m1("from_secret", str("")), map(<<[k |-> "1", y |-> "i", q |-> "1", v |-> str("no")]>>)}
\* every shape of a value of kind y
Frag(y) ==
  CASE y = "str" -> Strs
    [] y = "int" -> {nul, int(0), int(7)}
    [] y = "bool" -> {nul, bool(TRUE), bool(FALSE)}
    [] y = "list" -> Lists
    [] y = "strmap" -> StrMaps
    [] y = "build" -> {nul, str(""), str("a"), map(<<>>), m1("image", str("a")), m1("args", m1("k", str("v"))), m2("image", str("x: y"), "labels", map(<<>>)), m2("cache_from", seq(<<str("a")>>), "context", str("."))}
    [] y = "push" -> {nul, str(""), str("a"), map(<<>>), m1("image", str("a"))}
    [] y = "ports" -> {nul, seq(<<>>), seq(<<nul>>), seq(<<int(80), map(<<>>)>>), seq(<<m2("port", int(80), "host", int(0)), m1("protocol", str("tcp"))>>), seq(<<m1("host", int(1)), int(0)>>)}
    [] y = "namepaths" -> {nul, seq(<<>>)} \cup {seq(<<x>>) : x \in Rec2("name", "path")} \cup {seq(<<nul, m1("path", str("/a")), map(<<>>), m2("path", str("/b"), "name", str("a"))>>)}
    [] y = "vars" -> {nul, map(<<>>), m1("A", nul), m2("A", str(""), "B", str("1")), m2("A", m1("from_secret", str("a")), "B", m1("value", str("null"))), m2("A", m2("value", str("v"), "from_secret", str("x: y")), "B", map(<<>>)), m2("a_b", str("1"), "A_B", str("2"))}
    [] y = "settings" -> {nul, map(<<>>), m2("k", int(1), "K", seq(<<str("a")>>))} \cup {m1("k", x) : x \in Opaque} \cup {m2("k", x, "a", str("b")) : x \in Opaque}
    [] y = "resources" -> {nul, map(<<>>), m1("limits", nul), m2("requests", map(<<>>), "limits", m1("cpu", int(2))), m1("requests", m2("cpu", int(0), "memory", str("64MiB"))), m1("limits", m1("memory", int(1025)))}
    [] y = "conds" -> Conds_
    [] y = "volumes" -> {nul, seq(<<>>), seq(<<nul, map(<<>>)>>), seq(<<m2("name", str("a"), "temp", nul)>>), seq(<<m1("temp", map(<<>>)), m1("host", map(<<>>))>>),
                         seq(<<m2("temp", m2("medium", str("memory"), "size_limit", str("1GiB")), "name", str("")), m2("host", m1("path", str("/a")), "name", str("x: y"))>>)}
    [] y = "clone" -> {nul, map(<<>>), m1("depth", int(0)), m2("disable", bool(TRUE), "skip_verify", bool(FALSE))}
    [] y = "limit" -> {nul, map(<<>>), m1("limit", int(0)), m1("limit", int(2))}
    [] y = "platform" -> {nul, map(<<>>), m1("os", str("")), m1("arch", str("arm")), m2("variant", str("v8"), "version", str("1809"))}
    [] y = "workspace" -> Rec2("base", "path")
    [] y = "spec" -> {nul, map(<<>>), m1("schedule", str("* * * * *")), m2("branch", str(""), "deployment", m1("target", str("a: b"))), m1("deployment", map(<<>>))}
    [] y = "get" -> Rec2("path", "name") \cup {m1("key", str("k"))}
    [] y = "data" -> Strs \cup {str("abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefgh-# z"), str("#"), str(" \n"), str("'a"), str("--- a")}
=============================================================================
