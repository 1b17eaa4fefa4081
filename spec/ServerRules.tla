---------------------------- MODULE ServerRules ----------------------------
(* What a server does to the executable directory and the PID file, as a     *)
(* function of its options (C09-C12, C14).                                   *)
(*                                                                           *)
(* cfg: [own, others: names of commands;  before: what the directory has at  *)
(*   each name;  dis, keep, local, over, bg, nowait: options;                *)
(*   max: connections or -1;  timed: a timeout is set;  badnum: a limit is   *)
(*   no number;  busy: the port is taken;                                    *)
(*   pid: "none", "new", "exists", "bad" (cannot be created)]                *)
(* A name can also be one at which nothing can be created ("nowhere").       *)
EXTENDS Integers, FiniteSets, Sequences, TLC

Kinds == {"absent", "file", "link", "dir", "ours", "nowhere"}   \* "ours": a link to the server's executable
Names(c) == c.own \cup c.others
Linkable(c) == IF c.dis THEN {} ELSE c.others \cup (IF c.local THEN c.own ELSE {})
Serves(c) == c.own # {}
Removes(c) == c.dis \/ c.over
Removable(k) == k \in {"file", "link", "ours"}
UsesPid(c) == Serves(c) /\ c.bg /\ c.pid # "none"

\* --- what is in the directory -------------------------------------------------
Cleared(c, n) == IF Removes(c) /\ Removable(c.before[n]) THEN "absent" ELSE c.before[n]
CanLink(c, n) == Cleared(c, n) = "absent"
LinkFails(c) == \E n \in Linkable(c) : ~CanLink(c, n)
Linked(c) == [n \in Names(c) |-> IF n \in Linkable(c) THEN "ours" ELSE Cleared(c, n)]
CleanedIf(c, keep) == [n \in Names(c) |-> IF n \in Linkable(c) THEN (IF keep THEN "ours" ELSE "absent") ELSE Cleared(c, n)]
Cleaned(c) == CleanedIf(c, c.keep)
\* Creating the links failed at some name x, after the names in P.  (A server without commands of its own, which is only
\* there to create the links, may leave those that it has created.)
Keeps(c) == {c.keep} \cup (IF Serves(c) THEN {} ELSE {TRUE})
Aborted(c, P, x, keep) ==
  [n \in Names(c) |-> IF n \in P THEN CleanedIf(c, keep)[n]
                      ELSE IF n = x THEN Cleared(c, n) ELSE c.before[n]]
AbortedFiles(c) ==
  {Aborted(c, P, x, k) : k \in Keeps(c), P \in SUBSET {n \in Names(c) : n \in Linkable(c) => CanLink(c, n)},
                      x \in {n \in Linkable(c) : ~CanLink(c, n)}}

\* --- how a server that is left alone starts -----------------------------------
Fails(c) == (Serves(c) /\ c.busy) \/ LinkFails(c) \/ (Serves(c) /\ c.badnum)
StartFiles(c) == IF Serves(c) /\ c.busy THEN {c.before}
                 ELSE IF LinkFails(c) THEN AbortedFiles(c)
                 ELSE IF Serves(c) THEN {Cleaned(c)} ELSE {Linked(c)}
PidFails(c) == UsesPid(c) /\ c.pid \in {"exists", "bad"}
RunsAtAll(c) == Serves(c) /\ ~Fails(c) /\ ~PidFails(c)
PidBefore(c) == IF c.pid = "exists" THEN "theirs" ELSE "absent"
PidRunning(c) == IF UsesPid(c) THEN "ours" ELSE PidBefore(c)

=============================================================================
