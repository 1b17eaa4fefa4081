-------------------------- MODULE TraceRemoteExec --------------------------
(* Validates recorded executions of the real client and server against       *)
(* RemoteExec (and ServerSession, for connections of which the harness is    *)
(* the peer).  A file holds many traces; every one is replayed on its own.   *)
(*                                                                           *)
(* Each recorded event is bound to one action of RemoteExec.  An event that  *)
(* the action does not allow is a violation of the guarantee that its        *)
(* enabling condition states (the set after the action).  If that is not one *)
(* of the properties being checked, the rest of the trace says nothing any   *)
(* more (taint) and is skipped.                                              *)
EXTENDS ServerSession, Json, TLC, Sequences
CONSTANTS TraceFile, Check
Traces == JsonDeserialize(TraceFile)
VARIABLES tid, l, taint,
          flow    \* [Streams -> BOOLEAN] the client's reader is reading at the moment
tvars == <<vars, req, tid, l, taint, flow>>

Ev == Traces[tid][l]
Is(name) == Ev.e = name

TraceInit == /\ tid \in 1..Len(Traces)
             /\ Init /\ req = Traces[tid][1].req
             /\ l = 1 /\ taint = FALSE
             /\ flow = [s \in Streams |-> FALSE]

Reject(blame) == PrintT(<<"REJECT", tid, l, blame>>) /\ FALSE

\* The system (or the harness) did something that A does not allow.
MustR(A, blame) ==
  IF ENABLED A THEN A /\ taint' = taint
  ELSE IF blame \cap (Check \cup {"HARNESS"}) # {} THEN Reject(blame)
  ELSE UNCHANGED <<vars, req>> /\ taint' = TRUE
Must(A, blame) == MustR(A /\ UNCHANGED req, blame)

\* A reader that does not read may hold up everything else (but only delay it).
Capacity == 60000
Free == \A s \in Streams : reader[s] => flow[s] \/ wBeg[s] - dl[s] <= Capacity

\* The system did not do something, within a generous time, that it owes.
MustNotOwe(owed, blame) ==
  IF owed /\ Free /\ blame \cap Check # {} THEN Reject(blame)
  ELSE UNCHANGED <<vars, req>> /\ taint' = taint

H == {"HARNESS"}
Elements(s) == {s[i] : i \in DOMAIN s}

\* Which guarantees a client end breaks that the contract does not allow.
EndBlame(st) ==
  IF req # "start" THEN {"C08"}
  ELSE IF st = 0 /\ ~StatusOk(st) THEN {"C03"}
  ELSE IF Traces[tid][1].req = "open" /\ st >= 0 /\ ~(cmd = "exit" /\ st = code) THEN IF cmd = "off" THEN {"C08"} ELSE {"C03"}
  ELSE IF ~StatusOk(st)
    THEN IF cmd = "off" THEN {"C06"}
         ELSE {"C03"} \cup (IF inGot < inGiven THEN {"C01"} ELSE {})
                      \cup (IF \E s \in Streams : reader[s] /\ dl[s] < wDone[s] THEN {"C02"} ELSE {})
  ELSE {"C02"}

Step ==
  \/ Is("Cfg")        /\ startable = Ev.startable /\ UNCHANGED <<vars, req>> /\ taint' = taint
  \/ Is("Flow")       /\ UNCHANGED <<vars, req>> /\ taint' = taint
  \/ Is("Give")       /\ Must(Give(Ev.n), H)
  \/ Is("EndInput")   /\ Must(EndInput, H)
  \/ Is("Shut")       /\ Must(Shut, H)
  \/ Is("WriteBeg")   /\ Must(WriteBeg(Ev.s, Ev.who, Ev.n), H)
  \/ Is("WriteDone")  /\ Must(WriteDone(Ev.s), H)
  \/ Is("CloseOut")   /\ Must(CloseOut(Ev.s), H)
  \/ Is("Hold")       /\ Must(Hold(Ev.s), H)
  \/ Is("Release")    /\ Must(Release(Ev.s), H)
  \/ Is("ReaderGone") /\ Must(ReaderGone(Ev.s), H)
  \/ Is("CmdExit")    /\ Must(CmdExit(Ev.c), H)
  \/ Is("CmdDie")     /\ Must(CmdDie, H)
  \/ Is("KillClient") /\ Must(KillClient, H)
  \/ Is("Lose")       /\ Must(Lose, H)
  \/ Is("Frame")      /\ MustR(Frame(Ev.k), H)
  \/ Is("Start")      /\ MustR(SStart, {"C08", "C15"})
  \/ Is("Signals")    /\ Must(SignalsOk(Elements(Ev.blocked), Elements(Ev.ignored), Elements(Ev.kept)) /\ UNCHANGED vars, {"C05"})
  \/ Is("Got")        /\ Must(Got(Ev.n) /\ Ev.ok, {"C01"})
  \/ Is("Eof")        /\ Must(Eof, {"C01"})
  \/ Is("ReadError")  /\ Must(FALSE /\ UNCHANGED vars, {"C01"})
  \/ Is("WriteError") /\ Must(~Attached /\ UNCHANGED vars, {"C02"})
  \/ Is("Deliver")    /\ Must(IF Ev.ok THEN Deliver(Ev.s, Ev.n)
                                ELSE Ev.s = "err" /\ MayFail /\ cli # "gone" /\ UNCHANGED vars, {"C02"})
  \/ Is("DeliverEof") /\ Must(DeliverEof(Ev.s), {"C02"})
  \/ Is("Term")       /\ Must(Term, {"C05"})
  \/ Is("Signal")     /\ Must(~Attached /\ UNCHANGED vars, {"C05"})
  \* the command ended without having been told to: only a terminated one may
  \/ Is("Vanish")     /\ Must(~Attached /\ CmdDie, {"C05"})
  \/ Is("CliEnd")     /\ MustR(IF Traces[tid][1].req = "open" THEN ServerEnd(Ev.st) ELSE SCliEnd(Ev.st), EndBlame(Ev.st))
  \/ Is("BadStart")   /\ Must(FALSE /\ UNCHANGED vars, {"C06", "C08"})
  \/ Is("Listen")     /\ Must(ListenOk(Ev.explicit, Ev.index, {<<Ev.addresses[k].host, Ev.addresses[k].port>> : k \in DOMAIN Ev.addresses}) /\ UNCHANGED vars, {"C08"})
  \* messages of a server that are no part of an execution
  \/ Is("StdinClosed") /\ Must((inShut \/ cmd # "run") /\ UNCHANGED vars, {"C01"})
  \/ Is("BadMessage") /\ Must(FALSE /\ UNCHANGED vars, {"C02"})
  \/ Is("AfterEnd")   /\ Must(FALSE /\ UNCHANGED vars, {"C03"})
  \* messages of a client that are no part of an execution
  \/ Is("BadRequest") /\ Must(FALSE /\ UNCHANGED vars, {"C06"})
  \/ Is("BadInput")   /\ Must(FALSE /\ UNCHANGED vars, {"C01"})
  \* whether the client and the server kept using the processor, for seconds
  \/ Is("Rest")       /\ Must(~(Ev.busy /\ AtRest(flow)) /\ UNCHANGED vars, {"C18"})
  \/ Is("Stall")      /\ LET w == Ev.what IN
       \/ w = "start"   /\ MustNotOwe(cmd = "off" /\ startable /\ Attached, {"C04", "C06"})
       \/ w = "read"    /\ MustNotOwe(OwesInput, {"C04"})
       \/ w = "lost"    /\ MustNotOwe(OwesInput, {"C01", "C04"})
       \/ w = "eof"     /\ MustNotOwe(OwesEof, {"C01"})
       \/ w = "out"     /\ MustNotOwe(OwesOutput(Ev.s), {"C04"})
       \/ w = "write"   /\ MustNotOwe(Attached /\ reader[Ev.s], {"C04"})
       \/ w = "close"   /\ MustNotOwe(OwesClose(Ev.s), {"C02"})
       \/ w = "end"     /\ MustNotOwe(OwesEnd,
                             {"C03", "C04"} \cup
                             (IF \E s \in Streams : OwesOutput(s) THEN {"C02"} ELSE {}) \cup
                             (IF inGot < inGiven THEN {"C01"} ELSE {}))
       \/ w = "term"    /\ MustNotOwe(OwesTerm, {"C05"})
       \/ w = "badterm" /\ MustNotOwe(OwesTerm, {"C05", "C08"})      \* (of a message that must not come)
       \/ w = "reject"  /\ MustNotOwe(OwesReject, {"C08"})
       \/ w = "session" /\ MustNotOwe(cli = "gone" /\ ~lost, {"C05"})

TraceNext ==
  \/ /\ l <= Len(Traces[tid]) /\ l' = l + 1 /\ UNCHANGED tid
     /\ flow' = IF Is("Flow") THEN [flow EXCEPT ![Ev.s] = Ev.on] ELSE flow
     /\ IF taint THEN UNCHANGED <<vars, req, taint>> ELSE Step
  \/ /\ l = Len(Traces[tid]) + 1 /\ l' = l + 1
     /\ PrintT(<<"ACCEPT", tid, taint>>)
     /\ UNCHANGED <<vars, req, tid, taint, flow>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* The contract's own invariants are evaluated in every state of every trace.
TraceSafety == taint \/ (Safety /\ StartedOnlyIfValid /\ NoCodeForBad)
=============================================================================
