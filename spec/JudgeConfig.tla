---------------------------- MODULE JudgeConfig ----------------------------
EXTENDS Judging, Config
Fn(P) == [n \in {p[1] : p \in P} |-> (CHOOSE p \in P : p[1] = n)[2]]
Same(list, set) == SetOf(list) = set /\ Len(list) = Cardinality(set)
\* An event: a text and what the code made of it, including what it says about
\* the servers ev.hosts names.
ConfigGood(ev) ==
  /\ ev.e = "Config"
  /\ LET c == Load(ev.text, Fn(SetOf(ev.env)), ev.work) IN
     CASE c.st = "any" -> TRUE
       [] c.st = "bad" -> ~ev.ok
       [] OTHER ->
            /\ ev.ok
            /\ ev.base = c.base
            /\ ev.timeout = c.timeout
            /\ Same(ev.all, ForClients(c))
            /\ \A i \in DOMAIN ev.hosts :
                 LET h == ev.hosts[i] want == ForServer(c, h.name) IN
                 h.none = (want = {}) /\ Same(h.defs, want)
\* What a server without commands of its own makes of a configuration: a link
\* for each command, or nothing at all.
NotAFile(n) == n = <<>> \/ n \in {One, Two} \/ \E i \in DOMAIN n : n[i] \in {0, Sep}
LinksGood(ev) ==
  /\ ev.e = "Links"
  /\ LET c == Load(ev.text, Fn(SetOf(ev.env)), ev.work) IN
     CASE c.st = "any" -> TRUE
       [] c.st = "bad" -> ev.status # 0 /\ ev.links = <<>>
       [] OTHER -> LET names == {d.name : d \in ForClients(c)} IN
                   (\E n \in names : NotAFile(n)) \/ (ev.status = 0 /\ Same(ev.links, names))
ExpandGood(ev) == ev.e = "Expand" /\ ev.ok /\ ev.r = Expand(ev.text, Fn(SetOf(ev.env)))
BothGood(ev) == IF ev.e = "Links" THEN LinksGood(ev) ELSE IF "work" \in DOMAIN ev THEN ConfigGood(ev) ELSE ExpandGood(ev)
=============================================================================
