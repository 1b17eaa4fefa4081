------------------------------ MODULE JudgeLog ------------------------------
(* Judges what a server (or a client) logged, and whether anything else was  *)
(* different because of it.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS TraceFile, Check, Good(_)
VARIABLES tid, l
J == INSTANCE Judging
TraceSpec == J!TraceSpec
G == INSTANCE Log WITH Messages <- 0, Forks <- 0, Wrong <- {}, procs <- 0, log <- 0, reader <- 0, cleaned <- 0
\* sources: [name, codes: its characters] of every source file that logs in such a run when all are asked for
Asked(x) == {s.name : s \in {y \in J!SetOf(x.sources) : G!Selected(x.list, y.codes)}}
SelectGood(x) == /\ G!Whole(x.out) /\ G!InOrder(x.out, 1, <<>>)
                 /\ G!Sources(x.out) = Asked(x)
ServedGood(x) ==
  /\ x.status \in IF x.fails THEN {"fails"} ELSE {"0"} \cup IF x.early THEN {"signalled"} ELSE {}
  /\ J!SetOf(x.left) = J!SetOf(x.prior)
  /\ \A i \in DOMAIN x.sessions : x.sessions[i].want = x.sessions[i].got
  /\ x.outread => /\ G!OutGood(x.out)
                  /\ G!Sources(x.out) \subseteq Asked(x)
                  /\ ~x.fails /\ (\E i \in DOMAIN x.sessions : x.sessions[i].how = "run") => Asked(x) \subseteq G!Sources(x.out)
                  \* every session has logged what it did, however it ended
                  /\ "Process" \in Asked(x) => Cardinality({x.out[i].p : i \in {j \in DOMAIN x.out : x.out[j].lv = "DEBUG" /\ x.out[j].name = "Process"}})
                                               >= Len(x.sessions)
  /\ x.errread => G!ErrGood(x.err)
LogGood(x) == CASE x.e = "Select" -> SelectGood(x)
                [] x.e = "Served" -> ServedGood(x)
=============================================================================
