------------------------------- MODULE Server -------------------------------
(* The life of a server (C09-C12): what it does to the executable directory  *)
(* and the PID file, which connections it accepts, and when and how it ends. *)
(* (cfg: see ServerRules.)                                                   *)
EXTENDS ServerRules

-----------------------------------------------------------------------------
(* The server, step by step.                                                 *)
VARIABLES cfg, phase, todo, made, files, pidf, accepted, open, told, late, failed, status
svars == <<cfg, phase, todo, made, files, pidf, accepted, open, told, late, failed, status>>

SInit(C) == /\ cfg \in C /\ phase = "bind" /\ todo = Names(cfg) /\ made = {} /\ files = cfg.before
            /\ pidf = PidBefore(cfg) /\ accepted = 0 /\ open = 0 /\ told = FALSE /\ late = FALSE /\ failed = FALSE /\ status = 0

Same(v) == UNCHANGED v
Bind == /\ phase = "bind"
        /\ IF Serves(cfg) /\ cfg.busy THEN phase' = "end" /\ failed' = TRUE /\ status' = 1 ELSE phase' = "link" /\ UNCHANGED <<failed, status>>
        /\ UNCHANGED <<cfg, todo, made, files, pidf, accepted, open, told, late>>
Fail == phase' = "cleanup" /\ failed' = TRUE
\* One name (in no particular order).
LinkOne == /\ phase = "link" /\ \E n \in todo :
             /\ todo' = todo \ {n}
             /\ IF n \notin Linkable(cfg) THEN files' = [files EXCEPT ![n] = Cleared(cfg, n)] /\ UNCHANGED <<made, phase, failed>>
                ELSE \/ CanLink(cfg, n) /\ files' = [files EXCEPT ![n] = "ours"] /\ made' = made \cup {n} /\ UNCHANGED <<phase, failed>>
                     \/ ~CanLink(cfg, n) /\ files' = [files EXCEPT ![n] = Cleared(cfg, n)] /\ Fail /\ UNCHANGED made
           /\ UNCHANGED <<cfg, pidf, accepted, open, told, late, status>>
LinksDone == /\ phase = "link" /\ todo = {}
             /\ IF ~Serves(cfg) THEN phase' = "end" /\ UNCHANGED failed
                ELSE IF cfg.badnum THEN Fail ELSE phase' = "pid" /\ UNCHANGED failed
             /\ UNCHANGED <<cfg, todo, made, files, pidf, accepted, open, told, late, status>>
WritePid == /\ phase = "pid"
            /\ IF ~UsesPid(cfg) THEN phase' = "up" /\ UNCHANGED <<pidf, failed>>
               ELSE IF PidFails(cfg) THEN Fail /\ UNCHANGED pidf
               ELSE pidf' = "ours" /\ phase' = "up" /\ UNCHANGED failed
            /\ UNCHANGED <<cfg, todo, made, files, accepted, open, told, late, status>>
StopNow == told \/ (cfg.max >= 0 /\ accepted >= cfg.max) \/ (cfg.timed /\ late)
\* (A connection that was made before it has noticed that it was told to stop may still be served.)
Accept == /\ phase = "up" /\ (cfg.max >= 0 => accepted < cfg.max) /\ accepted' = accepted + 1 /\ open' = open + 1
          /\ UNCHANGED <<cfg, phase, todo, made, files, pidf, told, late, failed, status>>
\* A connection that was accepted, but no process can be had for it.
Turned == /\ phase = "up" /\ (cfg.max >= 0 => accepted < cfg.max) /\ accepted' = accepted + 1
          /\ UNCHANGED <<cfg, phase, todo, made, files, pidf, open, told, late, failed, status>>
SessionEnds == /\ open > 0 /\ open' = open - 1 /\ UNCHANGED <<cfg, phase, todo, made, files, pidf, accepted, told, late, failed, status>>
Told == /\ phase \in {"link", "pid", "up", "drain"} /\ told' = TRUE /\ UNCHANGED <<cfg, phase, todo, made, files, pidf, accepted, open, late, failed, status>>
Later == /\ late' = TRUE /\ UNCHANGED <<cfg, phase, todo, made, files, pidf, accepted, open, told, failed, status>>
StopAccepting == /\ phase = "up" /\ StopNow /\ phase' = "drain" /\ UNCHANGED <<cfg, todo, made, files, pidf, accepted, open, told, late, failed, status>>
Drained == /\ phase = "drain" /\ (cfg.nowait \/ open = 0) /\ phase' = "cleanup" /\ UNCHANGED <<cfg, todo, made, files, pidf, accepted, open, told, late, failed, status>>
Cleanup == /\ phase = "cleanup" /\ phase' = "end"
           /\ \E keep \in Keeps(cfg) : files' = [n \in DOMAIN files |-> IF n \in made /\ ~keep THEN "absent" ELSE files[n]]
           /\ pidf' = IF pidf = "ours" THEN "absent" ELSE pidf
           /\ status' = IF failed THEN 1 ELSE 0
           /\ UNCHANGED <<cfg, todo, made, accepted, open, told, late, failed>>
SNext == Bind \/ LinkOne \/ LinksDone \/ WritePid \/ Accept \/ Turned \/ SessionEnds \/ Told \/ Later \/ StopAccepting \/ Drained \/ Cleanup
SSpec(C) == SInit(C) /\ [][SNext]_svars /\ WF_svars(Bind \/ LinkOne \/ LinksDone \/ WritePid \/ StopAccepting \/ Drained \/ Cleanup) /\ WF_svars(SessionEnds)

\* What holds of it, in every state
Consistent ==
  /\ phase \in {"up", "drain"} => files = Linked(cfg) /\ pidf = PidRunning(cfg) /\ RunsAtAll(cfg)
  /\ phase = "end" => /\ failed <=> (status # 0)
                      /\ failed <=> (Fails(cfg) \/ (Serves(cfg) /\ PidFails(cfg)))
                      /\ pidf = PidBefore(cfg)
                      /\ Fails(cfg) => files \in StartFiles(cfg)
                      /\ ~Fails(cfg) => files = IF Serves(cfg) THEN Cleaned(cfg) ELSE Linked(cfg)
  /\ cfg.max >= 0 => accepted <= cfg.max
\* Nothing is touched but what it created or was told to remove.
Untouched == \A n \in Names(cfg) : files[n] # cfg.before[n] => n \in Linkable(cfg) \/ Removes(cfg)
NoLeftovers == phase = "end" /\ ~cfg.keep /\ Serves(cfg) => \A n \in Names(cfg) : files[n] = "ours" => cfg.before[n] = "ours"
BusyChangesNothing == Serves(cfg) /\ cfg.busy => files = cfg.before /\ pidf = PidBefore(cfg)
WaitsForSessions == [][phase = "drain" /\ phase' = "cleanup" => cfg.nowait \/ open = 0]_svars
StopsWhenTold == (told /\ phase = "up") ~> (phase = "drain")
EndsWhenStopped == (phase = "drain") ~> (phase = "end")
=============================================================================
