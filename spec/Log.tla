-------------------------------- MODULE Log --------------------------------
(* C19: the messages a server logs.                                          *)
(*                                                                           *)
(* Which debug messages are asked for: K8PSH_DEBUG is a text (a sequence of  *)
(* characters), a list of names of source files.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Blank(c) == c = 32 \/ c \in 9..13
Separator(c) == c \in {44, 59}
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Uppers(s) == [i \in DOMAIN s |-> Upper(s[i])]
RECURSIVE Trimmed(_)
Trimmed(s) == IF s = <<>> THEN s
              ELSE IF Blank(s[1]) THEN Trimmed(Tail(s))
              ELSE IF Blank(s[Len(s)]) THEN Trimmed(SubSeq(s, 1, Len(s) - 1))
              ELSE s
Ends(s) == {0, Len(s) + 1} \cup {i \in DOMAIN s : Separator(s[i])}
Names(s) == {Uppers(Trimmed(SubSeq(s, b[1] + 1, b[2] - 1))) :
             b \in {x \in Ends(s) \X Ends(s) : x[1] < x[2] /\ \A y \in Ends(s) : ~(x[1] < y /\ y < x[2])}}
All == <<65, 76, 76>>
Selected(list, name) == {All, Uppers(name)} \cap Names(list) # {}

-----------------------------------------------------------------------------
(* A log that has been read: a sequence of lines [p: the process, t: the     *)
(* time, lv: the level, name: the source (of a debug message), n: the text], *)
(* processes, times (in order) and texts being numbered.                     *)
\* Each process' lines are in order, and none is there again.
RECURSIVE InOrder(_, _, _)
InOrder(ls, i, last) ==
  \/ i > Len(ls)
  \/ LET x == ls[i] IN
     /\ x.p \in DOMAIN last => last[x.p].t < x.t \/ (last[x.p].t = x.t /\ last[x.p].n # x.n)
     /\ InOrder(ls, i + 1, (x.p :> [t |-> x.t, n |-> x.n]) @@ last)
Whole(ls) == \A i \in DOMAIN ls : ls[i].lv # "torn"
OutGood(ls) == Whole(ls) /\ InOrder(ls, 1, <<>>) /\ \A i \in DOMAIN ls : ls[i].lv \in {"DEBUG", "INFO"}
ErrGood(ls) == Whole(ls) /\ InOrder(ls, 1, <<>>) /\ \A i \in DOMAIN ls : ls[i].lv \in {"WARN", "ERROR"}
Sources(ls) == {ls[i].name : i \in {j \in DOMAIN ls : ls[j].lv = "DEBUG"}}

-----------------------------------------------------------------------------
(* How messages get into the log.  A server (process 1) forks a process for  *)
(* each of its sessions, this one another for the command, which becomes the *)
(* command or aborts.  What a process has not handed over when it is         *)
(* replaced or aborts is lost; what it has not handed over when it forks     *)
(* is there twice.  The reader of the log may go away.                       *)
(* Wrong: "buffered": messages are handed over at the end of the process     *)
(* (or earlier);  "atforks": and when it forks;  "dies": a process that logs *)
(* to nobody is ended.                                                       *)
CONSTANTS Messages, Forks, Wrong
VARIABLES procs, log, reader, cleaned
vars == <<procs, log, reader, cleaned>>
\* a process: [st, buf, issued]
New(buf) == [st |-> "runs", buf |-> buf, issued |-> 0]
LInit == procs = <<New(<<>>)>> /\ log = <<>> /\ reader = TRUE /\ cleaned = FALSE
Runs(p) == procs[p].st = "runs"
Put(x) == log' = IF reader THEN log \o x ELSE log
Lazy == Wrong \cap {"buffered", "atforks"} # {}
Issue(p) ==
  /\ Runs(p) /\ procs[p].issued < Messages /\ UNCHANGED <<reader, cleaned>>
  /\ LET m == <<p, procs[p].issued + 1>> IN
     IF Lazy THEN procs' = [procs EXCEPT ![p].issued = @ + 1, ![p].buf = Append(@, m)] /\ UNCHANGED log
     ELSE IF "dies" \in Wrong /\ ~reader THEN procs' = [procs EXCEPT ![p].st = "killed"] /\ UNCHANGED log
     ELSE procs' = [procs EXCEPT ![p].issued = @ + 1] /\ Put(<<m>>)
Spill(p) == /\ Runs(p) /\ procs[p].buf # <<>> /\ Put(procs[p].buf) /\ procs' = [procs EXCEPT ![p].buf = <<>>] /\ UNCHANGED <<reader, cleaned>>
Fork(p) ==
  /\ Runs(p) /\ Len(procs) <= Forks /\ UNCHANGED <<reader, cleaned>>
  /\ IF "atforks" \in Wrong THEN Put(procs[p].buf) /\ procs' = Append([procs EXCEPT ![p].buf = <<>>], New(<<>>))
     ELSE procs' = Append(procs, New(procs[p].buf)) /\ UNCHANGED log
Exit(p) == /\ Runs(p) /\ Put(procs[p].buf) /\ procs' = [procs EXCEPT ![p].st = "ended", ![p].buf = <<>>]
           /\ cleaned' = (cleaned \/ p = 1) /\ UNCHANGED reader
\* replaced by the command, or aborted (which happens to no server)
Lose(p) == /\ Runs(p) /\ p # 1 /\ procs' = [procs EXCEPT ![p].st = "ended", ![p].buf = <<>>] /\ UNCHANGED <<log, reader, cleaned>>
Leave == reader /\ reader' = FALSE /\ UNCHANGED <<procs, log, cleaned>>
LNext == Leave \/ \E p \in DOMAIN procs : Issue(p) \/ Spill(p) \/ Fork(p) \/ Exit(p) \/ Lose(p)
LSpec == LInit /\ [][LNext]_vars
Once == \A i, j \in DOMAIN log : log[i] = log[j] => i = j
Ordered == \A i, j \in DOMAIN log : i < j /\ log[i][1] = log[j][1] => log[i][2] <= log[j][2]
None == reader => \A p \in DOMAIN procs : ~Runs(p) => \A k \in 1..procs[p].issued : \E i \in DOMAIN log : log[i] = <<p, k>>
Cleans == ~Runs(1) => cleaned
\* What is written like this is also good for the judge.
Read == [i \in DOMAIN log |-> [p |-> log[i][1], t |-> log[i][2], n |-> 0, lv |-> "INFO", name |-> ""]]
Judged == OutGood(Read)
=============================================================================
