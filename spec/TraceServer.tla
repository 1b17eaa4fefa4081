---------------------------- MODULE TraceServer ----------------------------
(* Validates histories of a real server against Server.  Phases that are not *)
(* observed ("bind" ... "pid") are those of Server in one step: StartFiles,  *)
(* Linked, Cleaned, which MCServer shows to be what the steps lead to.       *)
EXTENDS Server, Json
CONSTANTS TraceFile, Check
VARIABLES tid, l, taint, settled, early
\* settled: it was seen to refuse connections; early: a signal was sent while it was starting
tvars == <<svars, tid, l, taint, settled, early>>
Traces == JsonDeserialize(TraceFile)
T == Traces[tid]
Ev == T[l]
Is(e) == Ev.e = e
ToCfg(r) == [r EXCEPT !.own = {r.own[i] : i \in DOMAIN r.own}, !.others = {r.others[i] : i \in DOMAIN r.others}]
Files(r) == [n \in DOMAIN r |-> r[n]]      \* (a record from JSON: name -> kind)
Sig(g) == g \in {"TERM", "INT"} \/ (g = "HUP" /\ ~cfg.bg)

TraceInit ==
  /\ tid \in 1..Len(Traces) /\ l = 2 /\ taint = FALSE /\ settled = FALSE /\ early = FALSE
  /\ cfg = ToCfg(Traces[tid][1].cfg)
  /\ phase = "bind" /\ todo = {} /\ made = {} /\ files = <<>> /\ pidf = "" /\ accepted = 0 /\ open = 0
  /\ told = FALSE /\ late = FALSE /\ failed = FALSE /\ status = 0

Reject(B) == PrintT(<<"REJECT", tid, l, B>>) /\ FALSE
Blamed(B) == B \cap (Check \cup {"HARNESS"}) # {}
\* P must hold; otherwise one of the properties in B is violated.
Must(P, B) == IF P THEN UNCHANGED taint ELSE IF Blamed(B) THEN Reject(B) ELSE taint' = TRUE
Both(P, B, Q, C) == IF P /\ Q THEN UNCHANGED taint
                    ELSE LET D == (IF P THEN {} ELSE B) \cup (IF Q THEN {} ELSE C) IN IF Blamed(D) THEN Reject(D) ELSE taint' = TRUE

NoChange == UNCHANGED <<cfg, todo, made, files, pidf, failed, status>>
MayStop == told \/ settled \/ (cfg.max >= 0 /\ accepted >= cfg.max) \/ late
MustStop == told \/ settled \/ (cfg.max >= 0 /\ accepted >= cfg.max)
EarlyOk(f, st) ==
  \/ st < 0 /\ f = cfg.before                                    \* before it has changed anything
  \/ st = 0 /\ f = IF Serves(cfg) THEN Cleaned(cfg) ELSE Linked(cfg)
  \/ st # 0 /\ (Fails(cfg) \/ PidFails(cfg)) /\ f \in StartFiles(cfg)
FileBlame(filesOk, pidOk) == (IF filesOk THEN {} ELSE {"C11"} \cup (IF cfg.bg /\ phase = "up" THEN {"C12"} ELSE {})) \cup (IF pidOk THEN {} ELSE {"C12"})

Step ==
  \/ /\ Is("Launched") /\ UNCHANGED <<phase, accepted, open, told, late, settled, early>> /\ NoChange
     /\ Must(IF Fails(cfg) THEN Ev.status # 0 \/ early
             ELSE (Ev.status = 0 /\ (Ev.listening \/ PidFails(cfg) \/ cfg.timed \/ cfg.max = 0)) \/ early, {"C12"})
  \/ /\ Is("Up") /\ phase' = "up" /\ UNCHANGED <<accepted, open, told, late, settled, early>> /\ NoChange
     /\ IF RunsAtAll(cfg) THEN Both(Files(Ev.files) = Linked(cfg) /\ Ev.extra = 0, {"C11"}, Ev.pid = PidRunning(cfg), {"C12"})
        ELSE Must(FALSE, IF Serves(cfg) /\ ~Fails(cfg) THEN {"C12"} ELSE {"C11"})
  \* at any time while it runs, whatever has happened to its sessions
  \/ /\ Is("Snap") /\ UNCHANGED <<phase, accepted, open, told, late, settled, early>> /\ NoChange
     /\ Both(Files(Ev.files) = Linked(cfg) /\ Ev.extra = 0, {"C09", "C11"}, Ev.pid = PidRunning(cfg), {"C09", "C12"})
  \/ /\ Is("Detached") /\ UNCHANGED <<phase, accepted, open, told, late, settled, early>> /\ NoChange
     /\ Must(Ev.ok, {"C12"})
  \/ /\ Is("Early") /\ early' = (early \/ Sig(Ev.sig)) /\ told' = (told \/ Sig(Ev.sig)) /\ UNCHANGED <<phase, accepted, open, late, settled>> /\ NoChange /\ UNCHANGED taint
  \/ /\ Is("Signal") /\ told' = (told \/ Sig(Ev.sig)) /\ UNCHANGED <<phase, accepted, open, late, settled, early>> /\ NoChange /\ UNCHANGED taint
  \* connections without end, which are dropped at once (not counted)
  \/ /\ Is("Storm") /\ UNCHANGED <<phase, accepted, open, told, late, settled, early>> /\ NoChange
     /\ Must(cfg.max < 0, {"HARNESS"})
  \/ /\ Is("Late") /\ late' = TRUE /\ UNCHANGED <<phase, accepted, open, told, settled, early>> /\ NoChange
     /\ Must(cfg.timed, {"HARNESS"})
  \* it no longer listens
  \/ /\ Is("Settled") /\ settled' = TRUE /\ UNCHANGED <<phase, accepted, open, told, late, early>> /\ NoChange
     /\ Must(MayStop, {"C09", "C10"})
  \* a connection: a session was started ("served"), or it was refused, or closed without one
  \/ /\ Is("Connect") /\ UNCHANGED <<phase, told, late, settled, early>> /\ NoChange
     /\ IF Ev.got = "served"
          THEN /\ accepted' = accepted + 1 /\ open' = open + 1
               /\ Must(~settled /\ (cfg.max >= 0 => accepted < cfg.max), {"C10"})
          ELSE /\ UNCHANGED <<accepted, open>> /\ Must(MayStop /\ Ev.got # "stuck", {"C09", "C10"})
  \* a connection that is no session: whether it was accepted is not seen if the server may be stopping
  \/ /\ Is("BadConnect") /\ accepted' = accepted + 1 /\ UNCHANGED <<phase, open, told, late, settled, early>> /\ NoChange
     /\ Must(Ev.got = "closed" \/ MayStop, {"C09", "C10"})
  \* a connection that asks for nothing, yet
  \/ /\ Is("Idle") /\ accepted' = accepted + 1 /\ open' = open + 1 /\ UNCHANGED <<phase, told, late, settled, early>> /\ NoChange /\ UNCHANGED taint
  \* the harness ends a session
  \/ /\ Is("Ending") /\ open' = open - 1 /\ UNCHANGED <<phase, accepted, told, late, settled, early>> /\ NoChange
     /\ Must(open > 0, {"HARNESS"})
  \* what it saw of a session
  \/ /\ Is("Session") /\ UNCHANGED <<phase, accepted, open, told, late, settled, early>> /\ NoChange
     /\ Must(Ev.ok, IF MayStop THEN {"C10"} ELSE {"C09"})
  \* whether its processes kept using the processor, for seconds in which nothing was asked of them
  \/ /\ Is("Rest") /\ UNCHANGED <<phase, accepted, open, told, late, settled, early>> /\ NoChange
     /\ Must(~Ev.busy, {"C18"})
  \* a command's inheritance
  \/ /\ Is("Inherited") /\ UNCHANGED <<phase, accepted, open, told, late, settled, early>> /\ NoChange
     /\ Must(Ev.fds = "0,1,2", {"C09"})
  \* no session is open
  \/ /\ Is("Quiet") /\ UNCHANGED <<phase, accepted, open, told, late, settled, early>> /\ NoChange
     /\ Both(open = 0, {"HARNESS"}, Ev.children = 0 /\ Ev.fds = 0, {"C09"})
  \* the end
  \/ /\ Is("Exit") /\ phase' = "end" /\ UNCHANGED <<accepted, open, told, late, settled, early>> /\ NoChange
     /\ LET f == Files(Ev.files) pidOk == Ev.pid = PidBefore(cfg) IN
        IF phase = "up"
          THEN Both(MayStop /\ Ev.status = 0 /\ (cfg.nowait \/ open = 0), {"C09", "C10"},
                    f = Cleaned(cfg) /\ Ev.extra = 0 /\ pidOk, FileBlame(f = Cleaned(cfg) /\ Ev.extra = 0, pidOk))
        ELSE IF early THEN Both(EarlyOk(f, Ev.status) /\ Ev.extra = 0, {"C11"}, pidOk, {"C12"})
        ELSE IF RunsAtAll(cfg)
          \* it did not stay long enough to be seen
          THEN Both(MustStop \/ cfg.max = 0 \/ cfg.timed, {"C09", "C10"}, Ev.status = 0 /\ f = Cleaned(cfg) /\ Ev.extra = 0 /\ pidOk, IF Ev.status # 0 THEN {"C10"} ELSE FileBlame(f = Cleaned(cfg) /\ Ev.extra = 0, pidOk))
        ELSE Both(IF Fails(cfg) \/ PidFails(cfg) THEN Ev.status # 0 ELSE Ev.status = 0, IF PidFails(cfg) /\ ~Fails(cfg) THEN {"C12"} ELSE {"C11"},
                  f \in StartFiles(cfg) /\ Ev.extra = 0 /\ pidOk, FileBlame(f \in StartFiles(cfg) /\ Ev.extra = 0, pidOk))
  \* something did not happen in (much) time
  \/ /\ Is("Stall") /\ UNCHANGED <<phase, accepted, open, told, late, settled, early>> /\ NoChange
     /\ LET w == Ev.what IN
        CASE w = "up"       -> Must(~RunsAtAll(cfg), IF cfg.bg THEN {"C11", "C12"} ELSE {"C11"})
          [] w = "start"    -> Must(FALSE, {"C11"})         \* neither up nor ended
          [] w = "launcher" -> Must(FALSE, {"C12"})
          [] w = "settle"   -> Must(~(MustStop \/ late), {"C10"})
          [] w = "exit"     -> Must(~((MustStop \/ late) /\ (cfg.nowait \/ open = 0)), {"C10"})

TraceNext ==
  \/ /\ l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid
     /\ IF taint THEN UNCHANGED <<svars, settled, early, taint>> ELSE Step
  \/ /\ l = Len(T) + 1 /\ l' = l + 1 /\ PrintT(<<"ACCEPT", tid, taint>>) /\ UNCHANGED <<svars, tid, taint, settled, early>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
