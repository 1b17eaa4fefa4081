----------------------------- MODULE GenRequest -----------------------------
(* Enumerates requests: every sequence of messages up to a length, every way *)
(* of ending it, and what may follow a message that was invalid.  TLC also    *)
(* checks the contract's properties about requests on all of them.           *)
EXTENDS ServerSession, Json, TLC
CONSTANTS MaxFrames, MaxPost, Emit
VARIABLES hist, post, done
gvars == <<reqVars, hist, post, done>>

Endings == {"wait", "close", "rst", "shutwr", "cuthead", "cutbody", "cutname"}

\* (without a directory nothing can be started)
GenInit == Init /\ ~startable /\ req = "open" /\ hist = <<>> /\ post = 0 /\ done = FALSE

More == /\ ~done /\ req = "open" /\ Len(hist) < MaxFrames
        /\ \E k \in Kinds \ {"wd"} : Frame(k) /\ hist' = Append(hist, k)
        /\ UNCHANGED <<post, done>>
\* messages after an invalid one must not matter
Post == /\ ~done /\ req = "bad" /\ post < MaxPost
        /\ \E k \in {"arg", "wdok", "start", "stdin", "exit"} : hist' = Append(hist, k)
        /\ post' = post + 1 /\ UNCHANGED <<reqVars, done>>
Finish == /\ ~done /\ done' = TRUE /\ UNCHANGED <<reqVars, hist, post>>
          /\ \A h \in (IF req = "open" THEN Endings ELSE {"wait"}) :
               ~Emit \/ PrintT("SCHEDULE " \o ToJson([frames |-> hist, how |-> h, req |-> req, startable |-> startable]))

\* What the server and the command may do then (not part of the schedules).
Runs == /\ done /\ ~Emit /\ UNCHANGED <<hist, post, done>>
        /\ \/ SStart
           \/ \E st \in {-1, 0, 7} : ServerEnd(st)
           \/ (CmdExit(7) \/ CmdDie \/ KillClient) /\ UNCHANGED req

GenNext == More \/ Post \/ Finish \/ Runs
GenSpec == GenInit /\ [][GenNext]_gvars
CodeOnlyOfCommand == cli = "end" /\ status >= 0 => req = "start" /\ cmd = "exit" /\ status = code
=============================================================================
