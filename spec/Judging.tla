------------------------------ MODULE Judging ------------------------------
(* Judges recorded observations one by one: Good (a constant operator) says  *)
(* whether the specification allows an event.  Same protocol with the        *)
(* harness as TraceRemoteExec: every trace is accepted, or rejected at its   *)
(* first event that is not good.                                             *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS TraceFile, Check, Good(_)
VARIABLES tid, l
Traces == JsonDeserialize(TraceFile)
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
  \/ /\ l <= Len(Traces[tid]) /\ UNCHANGED tid
     /\ IF Good(Traces[tid][l]) THEN l' = l + 1
        ELSE l' = Len(Traces[tid]) + 2 /\ PrintT(<<"REJECT", tid, l, Check>>)
  \/ l = Len(Traces[tid]) + 1 /\ l' = l + 1 /\ UNCHANGED tid /\ PrintT(<<"ACCEPT", tid, FALSE>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
SetOf(s) == {s[i] : i \in DOMAIN s}
=============================================================================
