----------------------------- MODULE RemoteExec -----------------------------
(* The contract of one remote execution, as its users see it: what is given  *)
(* to the client's standard input, what the command reads, what the command  *)
(* (and processes it leaves behind) writes, what arrives at the readers of   *)
(* the client's standard output and error, and how both of them end.         *)
(*                                                                           *)
(* Data are abstracted to counts: the streams' contents are fixed sequences, *)
(* so "the next n bytes" is all an action needs to say.  Every action is     *)
(* observable.  Actions of the surroundings (the user, the command) are      *)
(* unconstrained; actions of the system (client + server) carry the          *)
(* guarantees C01-C05 as their enabling conditions.                          *)
EXTENDS Naturals, Integers, FiniteSets

Streams == {"out", "err"}

VARIABLES
  inGiven,   \* bytes supplied to the client's standard input so far
  inEnd,     \* the client's standard input has ended
  inGot,     \* bytes read by the command
  inEof,     \* the command has seen end-of-file
  inShut,    \* the command has closed its standard input
  wBeg,      \* [Streams -> Nat] bytes whose writing has begun
  wDone,     \* [Streams -> Nat] bytes whose writing has completed
  busy,      \* [Streams -> {"", "cmd", "hold"}] whose write is in progress
  writers,   \* [Streams -> SUBSET {"cmd","hold"}] who has the stream open
  dl,        \* [Streams -> Nat] bytes that have arrived at the client's reader
  dlEof,     \* [Streams -> BOOLEAN] the reader has seen end-of-file
  reader,    \* [Streams -> BOOLEAN] somebody still reads the client's stream
  cmd,       \* "off", "run", "exit" (with code), "dead" (killed by a signal)
  code,      \* exit code of the command
  term,      \* the command received the termination signal from the server
  cli,       \* "run", "gone" (killed or disconnected by its surroundings), "end"
  status,    \* how the client ended: 0..255, or negative for a signal
  startable, \* the command can be started at all
  lost       \* the session's connection was lost on the server's side

vars == <<inGiven, inEnd, inGot, inEof, inShut, wBeg, wDone, busy, writers, dl, dlEof,
          reader, cmd, code, term, cli, status, startable, lost>>
inVars == <<inGiven, inEnd, inGot, inEof, inShut>>
outVars == <<wBeg, wDone, busy, writers, dl, dlEof, reader>>
endVars == <<cmd, code, term, cli, status, startable, lost>>

InitButIn ==
  /\ inGot = 0 /\ inEof = FALSE /\ inShut = FALSE
  /\ wBeg = [s \in Streams |-> 0] /\ wDone = [s \in Streams |-> 0]
  /\ writers = [s \in Streams |-> {}] /\ busy = [s \in Streams |-> ""]
  /\ dl = [s \in Streams |-> 0] /\ dlEof = [s \in Streams |-> FALSE]
  /\ reader = [s \in Streams |-> TRUE]
  /\ cmd = "off" /\ code = 0 /\ term = FALSE
  /\ cli = "run" /\ status = 0
  /\ startable \in BOOLEAN /\ lost = FALSE

Init == InitButIn /\ inGiven = 0 /\ inEnd = FALSE

-----------------------------------------------------------------------------
(* The surroundings                                                          *)

Give(n) == /\ cli = "run" /\ ~inEnd
           /\ inGiven' = inGiven + n
           /\ UNCHANGED <<inEnd, inGot, inEof, inShut, outVars, endVars>>

EndInput == /\ ~inEnd
            /\ inEnd' = TRUE
            /\ UNCHANGED <<inGiven, inGot, inEof, inShut, outVars, endVars>>

Shut == /\ cmd = "run" /\ ~inShut
        /\ inShut' = TRUE
        /\ UNCHANGED <<inGiven, inEnd, inGot, inEof, outVars, endVars>>

WriteBeg(s, who, n) ==
                  /\ who \in writers[s] /\ busy[s] = ""
                  /\ wBeg' = [wBeg EXCEPT ![s] = @ + n]
                  /\ busy' = [busy EXCEPT ![s] = who]
                  /\ UNCHANGED <<wDone, writers, dl, dlEof, reader, inVars, endVars>>

WriteDone(s) == /\ busy[s] \in writers[s]
                /\ wDone' = [wDone EXCEPT ![s] = wBeg[s]]
                /\ busy' = [busy EXCEPT ![s] = ""]
                /\ UNCHANGED <<wBeg, writers, dl, dlEof, reader, inVars, endVars>>

CloseOut(s) == /\ cmd = "run" /\ "cmd" \in writers[s]
               /\ writers' = [writers EXCEPT ![s] = @ \ {"cmd"}]
               /\ UNCHANGED <<wBeg, wDone, busy, dl, dlEof, reader, inVars, endVars>>

Hold(s) == /\ cmd = "run" /\ writers[s] = {"cmd"}
           /\ writers' = [writers EXCEPT ![s] = @ \cup {"hold"}]
           /\ UNCHANGED <<wBeg, wDone, busy, dl, dlEof, reader, inVars, endVars>>

Release(s) == /\ "hold" \in writers[s]
              /\ writers' = [writers EXCEPT ![s] = @ \ {"hold"}]
              /\ UNCHANGED <<wBeg, wDone, busy, dl, dlEof, reader, inVars, endVars>>

ReaderGone(s) == /\ reader[s]
                 /\ reader' = [reader EXCEPT ![s] = FALSE]
                 /\ UNCHANGED <<wBeg, wDone, busy, writers, dl, dlEof, inVars, endVars>>

\* (a write in progress is cut off somewhere)
CmdEnds == /\ writers' = [s \in Streams |-> writers[s] \ {"cmd"}]
           /\ busy' = [s \in Streams |-> IF busy[s] = "cmd" THEN "" ELSE busy[s]]

CmdExit(c) == /\ cmd = "run"
              /\ cmd' = "exit" /\ code' = c
              /\ CmdEnds
              /\ UNCHANGED <<wBeg, wDone, dl, dlEof, reader, inVars,
                             term, cli, status, startable, lost>>

CmdDie == /\ cmd = "run"
          /\ cmd' = "dead"
          /\ CmdEnds
          /\ UNCHANGED <<wBeg, wDone, dl, dlEof, reader, inVars,
                         code, term, cli, status, startable, lost>>

KillClient == /\ cli = "run"
              /\ cli' = "gone"
              /\ UNCHANGED <<inVars, outVars, cmd, code, term, status, startable, lost>>

Lose == /\ ~lost
        /\ lost' = TRUE
        /\ UNCHANGED <<inVars, outVars, cmd, code, term, cli, status, startable>>

Surroundings(Sizes, Codes) ==
  \/ \E n \in Sizes : Give(n)
  \/ EndInput \/ Shut \/ CmdDie \/ KillClient \/ Lose
  \/ \E s \in Streams :
        \/ \E n \in Sizes, who \in {"cmd", "hold"} : WriteBeg(s, who, n)
        \/ WriteDone(s) \/ CloseOut(s) \/ Hold(s) \/ Release(s) \/ ReaderGone(s)
  \/ \E c \in Codes : CmdExit(c)

-----------------------------------------------------------------------------
(* The system.  The named conditions are the guarantees.                     *)

\* Output that cannot be written makes the client fail, at a time of its choice.
Unwritten == \E s \in Streams : ~reader[s] /\ dl[s] < wBeg[s]
Attached == cli = "run" /\ ~lost /\ ~Unwritten       \* the session is intact

\* The command is started (once; C06 says how).
StartOk == cmd = "off" /\ startable
Start == /\ StartOk
         /\ cmd' = "run"
         /\ writers' = [s \in Streams |-> {"cmd"}]
         /\ UNCHANGED <<wBeg, wDone, busy, dl, dlEof, reader, inVars,
                        code, term, cli, status, startable, lost>>

\* C05: a command that is not told otherwise reacts to signals as any program does (and so ends when told to):
\* none is held back, and none ignored but those the server was itself told to ignore.
SignalsOk(blocked, ignored, kept) == blocked = {} /\ ignored \subseteq kept

\* C01: what the command reads is the next part of what the client was given.
GotOk(n) == inGot + n <= inGiven
Got(n) == /\ cmd = "run" /\ ~inShut /\ GotOk(n)
          /\ inGot' = inGot + n
          /\ UNCHANGED <<inGiven, inEnd, inEof, inShut, outVars, endVars>>

\* C01: end-of-file only after all of it.
EofOk == (inEnd /\ inGot = inGiven) \/ ~Attached
Eof == /\ cmd = "run" /\ ~inShut /\ EofOk
       /\ inEof' = TRUE
       /\ UNCHANGED <<inGiven, inEnd, inGot, inShut, outVars, endVars>>

\* C02: what arrives is the next part of what was written to the same stream.
DeliverOk(s, n) == dl[s] + n <= wBeg[s]
Deliver(s, n) == /\ cli # "gone" /\ reader[s] /\ ~dlEof[s] /\ DeliverOk(s, n)
                 /\ dl' = [dl EXCEPT ![s] = @ + n]
                 /\ UNCHANGED <<wBeg, wDone, busy, writers, dlEof, reader, inVars, endVars>>

\* C02: a stream ends, while the client runs, only after everything was written.
Complete(s) == writers[s] = {} /\ dl[s] >= wDone[s]
DeliverEofOk(s) == Complete(s)
DeliverEof(s) == /\ cli = "run" /\ reader[s] /\ ~dlEof[s] /\ DeliverEofOk(s)
                 /\ dlEof' = [dlEof EXCEPT ![s] = TRUE]
                 /\ UNCHANGED <<wBeg, wDone, busy, writers, dl, reader, inVars, endVars>>

\* C05: a termination signal only to the command of a client that is gone.
TermOk == ~Attached
Term == /\ cmd = "run" /\ TermOk
        /\ term' = TRUE
        /\ UNCHANGED <<inVars, outVars, cmd, code, cli, status, startable, lost>>

\* C03: success is only reported for a command that succeeded, and the command's
\* code is reported if it exited.  (If output could not be written, or the session
\* was lost, any failure may be reported, whatever the command did.)
\* Endings in which the client or the server may add a diagnostic to standard error.
MayFail == ~startable \/ lost \/ cmd = "dead" \/ Unwritten
StatusOk(st) == IF cmd = "exit"
                  THEN st = code \/ (st # 0 /\ (lost \/ Unwritten))
                  ELSE st # 0 /\ (cmd = "dead" \/ ~startable \/ lost \/ Unwritten)
\* C02: with the command's code, only after all output was written.
OutputOk(st) == (cmd = "exit" /\ st = code) =>
                   \A s \in Streams : \/ Complete(s)
                                      \/ ~reader[s] /\ (st # 0 \/ dl[s] >= wDone[s])
CliEnd(st) == /\ cli = "run" /\ StatusOk(st) /\ OutputOk(st)
              /\ cli' = "end" /\ status' = st
              /\ UNCHANGED <<inVars, outVars, cmd, code, term, startable, lost>>

System(Sizes, Statuses) ==
  \/ Start \/ Eof \/ Term
  \/ \E n \in Sizes : Got(n)
  \/ \E s \in Streams : DeliverEof(s) \/ \E n \in Sizes : Deliver(s, n)
  \/ \E st \in Statuses : CliEnd(st)

-----------------------------------------------------------------------------
(* Obligations: what must happen without any further help of the            *)
(* surroundings.  They are what "promptly" is measured against in traces    *)
(* (event Stall), and leads-to properties of the design models.             *)

OwesInput == Attached /\ cmd = "run" /\ ~inShut /\ inGot < inGiven
OwesEof == Attached /\ cmd = "run" /\ ~inShut /\ ~inEof /\ inEnd /\ inGot = inGiven
OwesOutput(s) == Attached /\ reader[s] /\ dl[s] < wDone[s] /\ cmd \in {"run", "exit"}
OwesClose(s) == Attached /\ reader[s] /\ ~dlEof[s] /\ cmd = "run" /\ Complete(s)
OwesEnd == cli = "run" /\ (cmd \in {"exit", "dead"} \/ ~startable)
           /\ \A s \in Streams : writers[s] = {}
OwesTerm == cli = "gone" /\ ~lost /\ cmd = "run" /\ ~term

\* C18: nothing is left to be done until the surroundings do something: what was written has arrived where somebody
\* takes it (what nobody takes, or nobody has sent, is waited for, and waiting costs nothing).
AtRest(taking) == /\ cli = "run" /\ ~lost /\ startable
                  /\ \A s \in Streams : reader[s] /\ taking[s] => dl[s] = wBeg[s]

-----------------------------------------------------------------------------
(* Consequences, checked by TLC on this module and on every refinement.      *)

TypeOK ==
  /\ inGiven \in Nat /\ inGot \in Nat
  /\ {inEnd, inEof, inShut, term, startable, lost} \subseteq BOOLEAN
  /\ \A s \in Streams : /\ wBeg[s] \in Nat /\ wDone[s] \in 0..wBeg[s]
                        /\ writers[s] \subseteq {"cmd", "hold"}
                        /\ dl[s] \in Nat
  /\ cmd \in {"off", "run", "exit", "dead"}
  /\ cli \in {"run", "gone", "end"}

\* C01
StdinFidelity == /\ inGot <= inGiven
                 /\ (inEof /\ Attached => inEnd /\ inGot = inGiven)
\* C02
OutputFidelity == \A s \in Streams : dl[s] <= wBeg[s]
\* C02, C03: at the moment the client ends
Ends == cli = "run" /\ cli' = "end"
OutputComplete == [][Ends /\ cmd = "exit" /\ status' = code /\ (code # 0 => ~lost) =>
                       \A s \in Streams : reader[s] => dl[s] >= wDone[s]]_vars
ExitFidelity == [][Ends => /\ (status' = 0 => cmd = "exit" /\ code = 0)
                           /\ (cmd = "exit" /\ ~lost /\ ~Unwritten => status' = code)]_vars
\* C05
TermOnlyIfGone == term => ~Attached

Safety == StdinFidelity /\ OutputFidelity /\ TermOnlyIfGone
=============================================================================
