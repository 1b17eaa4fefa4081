----------------------------- MODULE GenServer -----------------------------
(* Generates configurations and histories for a real server.                 *)
EXTENDS Server, Json
CONSTANTS Bgs, BeforeKinds, Pids, Maxes, Times, Faults, Ops, Lengths, Owns, Opts
VARIABLES c, hist, live, n, want, step, acc
gvars == <<c, hist, live, n, want, step, acc>>
Rnd(S) == RandomElement(S)
Coin(i) == Rnd(BOOLEAN)
Flag(o) == o \in Opts /\ Rnd(1..3) = 1
OwnNames == {"o1", "o2"}
OtherNames == {"x1", "x2", "x3"}
Fault(f) == f \in Faults /\ Rnd(1..4) = 1

GenInit == c = <<>> /\ hist = <<>> /\ live = {} /\ n = 0 /\ want = 0 /\ step = 0 /\ acc = 0
Nowhere(s) == [x \in s |-> "nowhere"]
NoFiles(s) == [x \in s |-> "absent"]
Choose == /\ step = 0 /\ step' = 1
          /\ \E own \in {IF Rnd(Owns) = 0 THEN {} ELSE Rnd({{"o1"}, OwnNames})}, bg \in {Rnd(Bgs)} :
             c' = [own |-> own, others |-> Rnd({{}, {"x1"}, OtherNames, OtherNames}), before |-> <<>>,
                   dis |-> Flag("dis") /\ Coin(0), keep |-> Flag("keep"), local |-> Flag("local"), over |-> Flag("over"),
                   bg |-> bg /\ own # {}, nowait |-> Flag("nowait"), max |-> Rnd(Maxes), time |-> Rnd(Times),
                   badnum |-> Fault("badnum"), busy |-> Fault("busy"), nodir |-> Fault("nodir"), early |-> Fault("early"),
                   pid |-> IF bg THEN Rnd(Pids) ELSE "none"]
          /\ UNCHANGED <<hist, live, n, want, acc>>
Before(k) == IF Rnd(1..3) = 1 THEN Rnd(BeforeKinds) ELSE "absent"
RECURSIVE BeforeOf(_)
BeforeOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN (x :> Before(x)) @@ BeforeOf(S \ {x})
Fill == /\ step = 1 /\ step' = 2
        /\ c' = [c EXCEPT !.before = IF c.nodir THEN Nowhere(Names(c)) ELSE BeforeOf(Names(c)),
                          !.others = IF Names(c) = {} THEN {"x1"} ELSE @,
                          !.own = @, !.busy = @ /\ c.own # {}, !.badnum = @ /\ c.own # {}]
        /\ want' = Rnd(Lengths) /\ UNCHANGED <<hist, live, n, acc>>
Fix == /\ step = 2 /\ step' = 3
       /\ c' = [c EXCEPT !.before = IF DOMAIN @ = Names(c) THEN @ ELSE IF c.nodir THEN Nowhere(Names(c)) ELSE NoFiles(Names(c))]
       /\ UNCHANGED <<hist, live, n, want, acc>>
Log(o) == hist' = Append(hist, o) /\ UNCHANGED <<c, want, step>>
Use(o) == step = 3 /\ o \in Ops /\ Len(hist) < want /\ RunsAtAll(c) /\ ~c.early
Connect == Use("connect") /\ Cardinality(live) < 6 /\ Log([op |-> "connect", i |-> n]) /\ n' = n + 1 /\ live' = live \cup {n} /\ acc' = acc + 1
Idle == Use("idle") /\ Cardinality(live) < 6 /\ Log([op |-> "idle", i |-> n, part |-> Rnd({0, 3, 20})]) /\ n' = n + 1 /\ live' = live \cup {n} /\ acc' = acc + 1
Bad == Use("bad") /\ \E h \in {Rnd({"invalid", "drop", "unknown", "nodir", "partial", "http"})} : Log([op |-> "bad", how |-> h]) /\ acc' = acc + 1 /\ UNCHANGED <<n, live>>
\* something is lacking for a connection: a process for it, a process for its command, or whatever accepting it needs
Lack == Use("lack") /\ Cardinality(live) < 6 /\ \E w \in {Rnd({"fork", "fork", "command", "EMFILE", "ENFILE", "ENOMEM", "ENOBUFS", "ECONNABORTED", "EINTR", "EAGAIN"})} :
          /\ Log([op |-> "lack", what |-> w, i |-> n]) /\ n' = n + 1 /\ acc' = acc + 1
          /\ live' = IF w \in {"fork", "command"} THEN live ELSE live \cup {n}
OnLive(o, r) == Use(o) /\ live # {} /\ \E i \in {Rnd(live)} : Log([op |-> o, i |-> i] @@ r)
Clog == OnLive("clog", [n |-> Rnd({100000, 1000000})]) /\ UNCHANGED <<n, live, acc>>
Talk == OnLive("talk", [n |-> Rnd({1, 100, 9000, 100000})]) /\ UNCHANGED <<n, live, acc>>
End(o, r) == Use(o) /\ live # {} /\ \E i \in {Rnd(live)} : Log([op |-> o, i |-> i] @@ r) /\ live' = live \ {i} /\ UNCHANGED <<n, acc>>
Finish == End("finish", [code |-> Rnd({0, 1, 77, 255}), hold |-> "hold" \in Ops /\ Rnd(1..3) = 1])
Drop == End("drop", [how |-> Rnd({"fin", "rst", "bad"})])
Die == End("die", [sig |-> Rnd({9, 6, 15})])
Signal == Use("signal") /\ (hist # <<>> \/ Rnd(1..3) = 1) /\ \E g \in {Rnd({"TERM", "INT", "HUP", "TERM", "HUP"})} : Log([op |-> "signal", sig |-> g, settle |-> Coin(0)]) /\ UNCHANGED <<n, live, acc>>
Sleep == Use("sleep") /\ \E ms \in {Rnd({1, 20, 100, 300})} : Log([op |-> "sleep", ms |-> ms]) /\ UNCHANGED <<n, live, acc>>
Snap == Use("snap") /\ Log([op |-> "snap"]) /\ UNCHANGED <<n, live, acc>>
Rest == Use("rest") /\ (hist # <<>> => hist[Len(hist)].op # "rest") /\ Log([op |-> "rest"]) /\ UNCHANGED <<n, live, acc>>
\* connections without end, until it stops (the last thing that happens)
Storm == /\ Use("storm") /\ c.max = 99 /\ Rnd(1..3) = 1
         /\ \E t \in {Rnd({"none", "TERM", "INT"})} : hist' = Append(hist, [op |-> "storm", sig |-> IF c.time = 99 /\ t = "none" THEN "TERM" ELSE t]) /\ want' = Len(hist) + 1
         /\ UNCHANGED <<c, step, n, live, acc>>
Quiet == Use("quiet") /\ live = {} /\ hist # <<>> /\ hist[Len(hist)].op # "quiet" /\ Log([op |-> "quiet"]) /\ UNCHANGED <<n, live, acc>>
Emit == /\ step = 3 /\ (Len(hist) >= want \/ ~RunsAtAll(c) \/ c.early) /\ step' = 4
        /\ PrintT("SCHEDULE " \o ToJson([cfg |-> c, ops |-> hist, runs |-> RunsAtAll(c), files |-> Linked(c), pid |-> PidRunning(c)]))
        /\ UNCHANGED <<c, hist, live, n, want, acc>>
GenNext == (Choose \/ Fill \/ Fix \/ Connect \/ Idle \/ Bad \/ Lack \/ Talk \/ Clog \/ Finish \/ Drop \/ Die \/ Signal \/ Sleep \/ Snap \/ Quiet \/ Rest \/ Storm \/ Emit) /\ UNCHANGED svars
GenSpec == (GenInit /\ cfg = 0 /\ phase = 0 /\ todo = 0 /\ made = 0 /\ files = 0 /\ pidf = 0 /\ accepted = 0 /\ open = 0 /\ told = 0 /\ late = 0 /\ failed = 0 /\ status = 0)
           /\ [][GenNext]_<<gvars, svars>>
=============================================================================
