----------------------------- MODULE ServerLoop -----------------------------
(* The design of a serving server: one process accepts, one process per      *)
(* session, one or more per command.  A signal is noticed when the exit pipe *)
(* has no writer left, so what matters is who holds copies of its input, and *)
(* of the listening socket, after each fork.  Refines Server (from "up" on). *)
(* Each constant is a decision of the design; with any of them taken         *)
(* differently some property fails:                                          *)
(*   CloseExit      a session's process closes its copies of the exit pipe   *)
(*   CloseListener  ... and of the listening socket                          *)
(*   ShutDown       the server not only closes but shuts down its socket     *)
(*   OwnFiles       a session's process never removes links and PID file     *)
(*   Reap           ended sessions are not kept as zombies                   *)
(*   WaitAll        it waits until no session's process is left              *)
(*   ExitFirst      a request to exit has precedence over a new connection   *)
(*   TimeFirst      ... and so has the end of its time                       *)
(*   Survive        a connection for which no process can be had is dropped  *)
(* Recycle: sessions come without end (accepted then does not count).        *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, CloseExit, CloseListener, ShutDown, OwnFiles, Reap, WaitAll, ExitFirst, TimeFirst, Survive, Recycle, Configs

VARIABLES cfg, main, seen, ses, left, exitw, lst, shut, files, pidf, told, late, accepted
lvars == <<cfg, main, seen, ses, left, exitw, lst, shut, files, pidf, told, late, accepted>>

R == INSTANCE ServerRules
Sessions == 1..N
Cmd(i) == N + i                    \* the command of session i and what it has left behind
Alive == {"fork", "idle", "run"}
Open == Cardinality({i \in Sessions : ses[i] \in Alive})
S == INSTANCE Server WITH phase <- main, todo <- {}, made <- R!Linkable(cfg), open <- Open, failed <- FALSE, status <- 0

Init == /\ cfg \in Configs /\ main = "up" /\ seen = FALSE /\ ses = [i \in Sessions |-> "none"] /\ left = {}
        /\ exitw = {0} /\ lst = {0} /\ shut = FALSE /\ files = R!Linked(cfg) /\ pidf = R!PidRunning(cfg)
        /\ told = FALSE /\ late = FALSE /\ accepted = 0

\* --- around it ----------------------------------------------------------------
Tell == /\ main \in {"up", "drain"} /\ told' = TRUE /\ exitw' = exitw \ {0}
        /\ UNCHANGED <<cfg, main, seen, ses, left, lst, shut, files, pidf, late, accepted>>
Later == /\ cfg.timed /\ late' = TRUE /\ UNCHANGED <<cfg, main, seen, ses, left, exitw, lst, shut, files, pidf, told, accepted>>

\* --- the server's own process -------------------------------------------------
Full == cfg.max >= 0 /\ accepted >= cfg.max
Asked == exitw = {}
\* poll() reports a connection
See == /\ main = "up" /\ ~seen /\ ~Full /\ (ExitFirst => ~Asked) /\ (TimeFirst => ~late) /\ \E i \in Sessions : ses[i] = "none"
       /\ seen' = TRUE /\ UNCHANGED <<cfg, main, ses, left, exitw, lst, shut, files, pidf, told, late, accepted>>
Accept(i) == /\ main = "up" /\ seen /\ ses[i] = "none" /\ \A j \in 1..(i - 1) : ses[j] # "none"
             /\ seen' = FALSE /\ ses' = [ses EXCEPT ![i] = "fork"] /\ accepted' = IF Recycle THEN 0 ELSE accepted + 1
             /\ exitw' = exitw \cup (IF 0 \in exitw THEN {i} ELSE {}) /\ lst' = lst \cup {i}
             /\ UNCHANGED <<cfg, main, left, shut, files, pidf, told, late>>
\* fork() fails
Lack(i) == /\ main = "up" /\ seen /\ ses[i] = "none" /\ \A j \in 1..(i - 1) : ses[j] # "none"
           /\ seen' = FALSE /\ ses' = [ses EXCEPT ![i] = IF Recycle THEN "none" ELSE "gone"]
           /\ accepted' = IF Recycle THEN 0 ELSE accepted + 1
           /\ main' = IF Survive THEN main ELSE "cleanup"
           /\ UNCHANGED <<cfg, left, exitw, lst, shut, files, pidf, told, late>>
Notice == /\ main = "up" /\ ~seen /\ (Asked \/ Full \/ late)
          /\ main' = "drain" /\ lst' = lst \ {0} /\ shut' = (shut \/ ShutDown)
          /\ UNCHANGED <<cfg, seen, ses, left, exitw, files, pidf, told, late, accepted>>
Drained == /\ main = "drain" /\ (cfg.nowait \/ (IF WaitAll THEN Open = 0 ELSE accepted > 0 => \E i \in Sessions : ses[i] \notin Alive \cup {"none"}))
           /\ main' = "cleanup" /\ UNCHANGED <<cfg, seen, ses, left, exitw, lst, shut, files, pidf, told, late, accepted>>
Removed == [n \in DOMAIN files |-> IF n \in R!Linkable(cfg) THEN "absent" ELSE files[n]]
Cleanup == /\ main = "cleanup" /\ main' = "end"
           /\ files' = IF cfg.keep THEN files ELSE Removed
           /\ pidf' = IF pidf = "ours" THEN "absent" ELSE pidf
           /\ UNCHANGED <<cfg, seen, ses, left, exitw, lst, shut, told, late, accepted>>

\* --- the sessions' processes --------------------------------------------------
Prepare(i) == /\ ses[i] = "fork" /\ ses' = [ses EXCEPT ![i] = "idle"]
              /\ exitw' = (IF CloseExit THEN exitw \ {i} ELSE exitw)
              /\ lst' = (IF CloseListener THEN lst \ {i} ELSE lst)
              /\ UNCHANGED <<cfg, main, seen, left, shut, files, pidf, told, late, accepted>>
Start(i) == /\ ses[i] = "idle" /\ ses' = [ses EXCEPT ![i] = "run"]
            /\ exitw' = exitw \cup (IF i \in exitw THEN {Cmd(i)} ELSE {})
            /\ lst' = lst \cup (IF i \in lst THEN {Cmd(i)} ELSE {})
            /\ UNCHANGED <<cfg, main, seen, left, shut, files, pidf, told, late, accepted>>
\* A session ends: as it should, or because its connection is lost (broken); a process may be left behind by its command.
End(i, broken, leaves) ==
  /\ ses[i] \in (IF broken THEN {"idle", "run"} ELSE {"run"}) /\ (leaves => ses[i] = "run")
  /\ ses' = [ses EXCEPT ![i] = IF Recycle THEN "none" ELSE IF Reap \/ main # "up" THEN "gone" ELSE "zombie"]
  /\ left' = IF leaves THEN left \cup {i} ELSE left
  /\ exitw' = exitw \ ({i} \cup (IF leaves THEN {} ELSE {Cmd(i)}))
  /\ lst' = lst \ ({i} \cup (IF leaves THEN {} ELSE {Cmd(i)}))
  /\ IF broken /\ ~OwnFiles THEN files' = Removed /\ pidf' = "absent" ELSE UNCHANGED <<files, pidf>>
  /\ UNCHANGED <<cfg, main, seen, shut, told, late, accepted>>
LeftEnds(i) == /\ i \in left /\ left' = left \ {i} /\ exitw' = exitw \ {Cmd(i)} /\ lst' = lst \ {Cmd(i)}
               /\ UNCHANGED <<cfg, main, seen, ses, shut, files, pidf, told, late, accepted>>

Own == (\E i \in Sessions : Accept(i) \/ Lack(i)) \/ Notice \/ Drained \/ Cleanup
Next == \/ Tell \/ Later \/ See \/ Own
        \/ \E i \in Sessions : Prepare(i) \/ Start(i) \/ LeftEnds(i) \/ \E b, x \in BOOLEAN : End(i, b, x)
Fair == /\ WF_lvars(Notice) /\ WF_lvars(Drained) /\ WF_lvars(Cleanup) /\ WF_lvars(\E i \in Sessions : Accept(i) \/ Lack(i))
        /\ \A i \in Sessions : WF_lvars(Prepare(i))
\* Sessions, and what they leave behind, may stay forever.
StaySpec == Init /\ [][Next]_lvars /\ Fair
\* Sessions end; what they have left behind may stay forever.
EndSpec == StaySpec /\ \A i \in Sessions : WF_lvars(Start(i)) /\ WF_lvars(\E b, x \in BOOLEAN : End(i, b, x))

\* --- its guarantees -----------------------------------------------------------
Refines == [][S!SNext]_(S!svars)
Listening == lst # {} /\ ~shut
Refuses == main # "up" => ~Listening
Serving == main = "up" => Listening
NoZombies == main = "up" => \A i \in Sessions : ses[i] # "zombie"
Inherits == \A i \in Sessions : Cmd(i) \notin exitw \cup lst
Belongings == main = "up" => files = R!Linked(cfg) /\ pidf = R!PidRunning(cfg)
Stops == (told /\ main = "up") ~> (main = "drain")
StopsInTime == (late /\ main = "up") ~> (main = "drain")
NoWaitEnds == (main = "drain" /\ cfg.nowait) ~> (main = "end")
Ends == (main = "drain") ~> (main = "end")
AtMost == cfg.max >= 0 => accepted <= cfg.max

Base == [own |-> {"a"}, others |-> {"b"}, before |-> [n \in {"a", "b"} |-> "absent"], dis |-> FALSE, keep |-> FALSE, local |-> FALSE, over |-> FALSE,
         bg |-> TRUE, nowait |-> FALSE, max |-> -1, timed |-> FALSE, badnum |-> FALSE, busy |-> FALSE, pid |-> "new"]
Some == {[Base EXCEPT !.nowait = w, !.max = m, !.timed = t, !.bg = b, !.pid = IF b THEN "new" ELSE "none"] : w, t, b \in BOOLEAN, m \in {-1, 1, 2}}
=============================================================================
