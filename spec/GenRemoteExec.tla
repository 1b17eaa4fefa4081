--------------------------- MODULE GenRemoteExec ---------------------------
(* Generates schedules for the real system: behaviours of RemoteExec in      *)
(* which every step is an order the harness can carry out.  Steps of the     *)
(* system appear as "await" orders, taken only where RemoteExec obliges the  *)
(* system to get there.                                                      *)
EXTENDS RemoteExec, Json, TLC, Sequences
CONSTANTS On,        \* orders that may be used
          Sizes, Codes, Signals, Sleeps,
          MaxIn, MaxOut,    \* bytes per stream
          MinLen,    \* orders before the command may end
          Pipe,      \* bytes a write may complete without being read
          Given,     \* bytes of a file that is the client's standard input (if "file" \in On)
          Flood,     \* bytes of a write (if "flood" \in On) that goes on for the rest of the schedule
          Pour       \* bytes of input (if "pour" \in On) that keep coming for the rest of the schedule
VARIABLES want,      \* bytes the command was told to read in total
          reading,   \* a read order is outstanding
          flow,      \* [Streams -> BOOLEAN] the reader is reading
          torrent,   \* SUBSET (Streams \cup {"in"}): what never comes to an end
          hist, done
gvars == <<vars, want, reading, flow, torrent, hist, done>>

Use(o) == o \in On /\ ~done
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Same == UNCHANGED <<want, reading, flow, torrent>>
Pick(S) == {RandomElement(S)}    \* one choice, so that sizes do not outweigh orders
Enough == /\ Len(hist) >= MinLen
          /\ {"flood", "pour"} \subseteq On => "in" \in torrent /\ torrent # {"in"}    \* (for both directions at once)
\* No stream's reader holds the others up (a reader that does not read may delay everything).
Free == \A s \in Streams : reader[s] => flow[s] \/ wBeg[s] - dl[s] <= Pipe
FreeBut(t) == \A s \in Streams \ {t} : reader[s] => flow[s] \/ wBeg[s] - dl[s] <= Pipe

GenInit == /\ InitButIn /\ startable = ~("nostart" \in On)
           /\ inGiven = (IF "file" \in On THEN Given ELSE 0) /\ inEnd = ("file" \in On)
           /\ want = 0 /\ reading = FALSE
           /\ flow = [s \in Streams |-> FALSE]
           /\ torrent = {} /\ hist = <<>> /\ done = FALSE

OrderGive == /\ Use("give")
             /\ \E n \in Pick(Sizes) :
                  inGiven + n <= MaxIn /\ Give(n) /\ Log([op |-> "give", n |-> n]) /\ Same
OrderEnd == Use("end") /\ cli = "run" /\ "in" \notin torrent /\ EndInput /\ Log([op |-> "end"]) /\ Same
OrderStart == Use("start") /\ cli = "run" /\ Start /\ Log([op |-> "start"]) /\ Same
OrderRead == /\ Use("read") /\ cmd = "run" /\ ~inShut /\ ~inEof /\ ~reading
             /\ \E n \in Pick(Sizes) :
                  want' = want + n /\ reading' = TRUE /\ UNCHANGED <<flow, torrent, vars>>
                  /\ Log([op |-> "read", n |-> n])
AwaitRead == /\ Use("read") /\ cmd = "run" /\ reading /\ ~inShut /\ cli = "run" /\ Free
             /\ want <= inGiven \/ inEnd
             /\ inGot' = IF want <= inGiven THEN want ELSE inGiven
             /\ inEof' = (want > inGiven)
             /\ reading' = FALSE /\ UNCHANGED <<flow, want, torrent>>
             /\ UNCHANGED <<inGiven, inEnd, inShut, outVars, endVars>>
             /\ Log([op |-> "awaitread"])
OrderShut == Use("shut") /\ ~reading /\ Shut /\ Log([op |-> "shut"]) /\ Same

OrderWrite == /\ Use("write") /\ cli = "run"
              /\ \E s \in Streams : reader[s] /\
                   \E n \in Pick(Sizes) : LET who == IF cmd = "run" THEN "cmd" ELSE "hold" IN
                     wBeg[s] + n <= MaxOut /\ WriteBeg(s, who, n)
                     /\ Log([op |-> "write", s |-> s, who |-> who, n |-> n]) /\ Same
AwaitWrite == /\ Use("write") /\ cli = "run"
              /\ \E s \in Streams \ torrent : reader[s] /\ WriteDone(s) /\ Free
                   /\ Log([op |-> "awaitwrite", s |-> s]) /\ Same
\* Traffic that does not end must not keep anything else from happening.
OrderFlood == /\ Use("flood") /\ cli = "run" /\ cmd = "run"
              /\ \E s \in Streams : reader[s] /\ WriteBeg(s, "cmd", Flood)
                   /\ flow' = [flow EXCEPT ![s] = TRUE] /\ torrent' = torrent \cup {s}
                   /\ Log([op |-> "flood", s |-> s, n |-> Flood]) /\ UNCHANGED <<want, reading>>
OrderPour == /\ Use("pour") /\ cmd = "run" /\ "in" \notin torrent /\ Give(Pour)
             /\ torrent' = torrent \cup {"in"}
             /\ Log([op |-> "pour", n |-> Pour]) /\ UNCHANGED <<want, reading, flow>>
OrderFlow == /\ Use("flow") /\ cli = "run"
             /\ \E s \in Streams \ torrent : reader[s] /\ flow' = [flow EXCEPT ![s] = ~@]
                  /\ Log([op |-> "flow", s |-> s, on |-> ~flow[s]])
                  /\ UNCHANGED <<want, reading, torrent, vars>>
AwaitOut == /\ Use("out") /\ cli = "run"
            /\ \E s \in Streams \ torrent :
                 /\ reader[s] /\ dl[s] < wBeg[s] /\ ~dlEof[s] /\ FreeBut(s)
                 /\ (cmd # "dead" \/ wDone[s] = wBeg[s])
                 /\ dl' = [dl EXCEPT ![s] = wBeg[s]] /\ wDone' = [wDone EXCEPT ![s] = wBeg[s]]
                 /\ busy' = [busy EXCEPT ![s] = ""] /\ flow' = [flow EXCEPT ![s] = TRUE]
                 /\ UNCHANGED <<wBeg, writers, dlEof, reader, inVars, endVars, want, reading, torrent>>
                 /\ Log([op |-> "awaitout", s |-> s])
OrderClose == /\ Use("close")
              /\ \E s \in Streams : busy[s] = "" /\ CloseOut(s)
                   /\ Log([op |-> "close", s |-> s]) /\ Same
AwaitClose == /\ Use("close") /\ cli = "run" /\ cmd = "run"
              /\ \E s \in Streams :
                   /\ writers[s] = {} /\ busy[s] = "" /\ reader[s] /\ ~dlEof[s] /\ FreeBut(s)
                   /\ dl' = [dl EXCEPT ![s] = wBeg[s]] /\ dlEof' = [dlEof EXCEPT ![s] = TRUE]
                   /\ flow' = [flow EXCEPT ![s] = TRUE]
                   /\ UNCHANGED <<wBeg, wDone, busy, writers, reader, inVars, endVars, want, reading, torrent>>
                   /\ Log([op |-> "awaitclose", s |-> s])
OrderHold == /\ Use("hold")
             /\ \E s \in Streams : Hold(s) /\ Log([op |-> "hold", s |-> s]) /\ Same
OrderRelease == /\ Use("hold") /\ cli = "run"
                /\ \E s \in Streams : busy[s] # "hold" /\ Release(s)
                     /\ Log([op |-> "release", s |-> s]) /\ Same
OrderReaderGone == /\ Use("readergone") /\ cli = "run" /\ \A s \in Streams : reader[s]
                   /\ \E s \in Streams : busy[s] = "" /\ ReaderGone(s)
                        /\ Log([op |-> "readergone", s |-> s]) /\ Same
OrderSleep == /\ Use("sleep") /\ hist # <<>> /\ hist[Len(hist)].op # "sleep"
              /\ \E ms \in Pick(Sleeps) : Log([op |-> "sleep", ms |-> ms])
              /\ Same /\ UNCHANGED vars

\* Nothing is asked for, for a while.
OrderRest == /\ Use("rest") /\ cmd # "off" /\ cli = "run" /\ torrent = {} /\ AtRest(flow)
             /\ hist[Len(hist)].op # "rest"
             /\ Log([op |-> "rest"]) /\ Same /\ UNCHANGED vars

OrderExit == /\ Use("exit") /\ Enough /\ cli = "run"
             /\ \A s \in Streams : busy[s] # "cmd"
             /\ \E c \in Pick(Codes) : CmdExit(c) /\ Log([op |-> "exit", c |-> c])
             /\ Same
OrderDie == /\ Use("die") /\ Enough /\ cli = "run"
            /\ \A s \in Streams : busy[s] = "cmd" => "hold" \notin writers[s]
            /\ \E g \in Pick(Signals) : CmdDie /\ Log([op |-> "die", sig |-> g])
            /\ Same
OrderKill == /\ Use("kill") /\ Enough
             /\ \E h \in Pick({"KILL", "TERM"}) : KillClient /\ Log([op |-> "kill", how |-> h])
             /\ Same

Finish == /\ ~done
          /\ \/ cli = "gone"
             \/ cmd \in {"exit", "dead"} /\ \A s \in Streams : writers[s] = {}
             \/ ~startable /\ Enough
          /\ done' = TRUE /\ UNCHANGED <<vars, want, reading, flow, torrent, hist>>
          /\ PrintT("SCHEDULE " \o ToJson(hist))

GenNext == \/ OrderGive \/ OrderEnd \/ OrderStart \/ OrderRead \/ AwaitRead \/ OrderShut
           \/ OrderFlood \/ OrderPour \/ OrderWrite \/ AwaitWrite \/ OrderFlow \/ AwaitOut \/ OrderClose \/ AwaitClose
           \/ OrderHold \/ OrderRelease \/ OrderReaderGone \/ OrderSleep \/ OrderRest
           \/ OrderExit \/ OrderDie \/ OrderKill \/ Finish

GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
