------------------------------ MODULE Session ------------------------------
(* The design of a session: how a client and a server process, each a loop  *)
(* over what poll() reports, connected by two bounded queues of messages     *)
(* and to the command by bounded pipes, provide RemoteExec.                  *)
(*                                                                           *)
(* RemoteExec's variables are what can be observed; the variables of this    *)
(* module are the two processes' own.  Every step must be one that           *)
(* RemoteExec allows (Refines), and what RemoteExec calls owed must happen   *)
(* (the leads-to properties at the end).                                     *)
(*                                                                           *)
(* The constants in capitals at the end of the list select a design; each    *)
(* alternative is one that looks plausible and is wrong (MCSession).         *)
EXTENDS RemoteExec, Sequences
CONSTANTS
  Codes, MaxIn, MaxOut,   \* MaxOut : [Streams -> Nat]
  Up, Down,    \* messages the connection holds on its way to the server, to the client
  Room,        \* bytes a pipe holds
  Noise,       \* SUBSET {"in", "out"}: traffic that never ends (input the command does not want, output on a stream of its own)
  Events,      \* SUBSET {"kill", "lose", "hold", "shut", "die", "nostart", "close"}: what else may happen
  Pending,     \* the client keeps a message the connection does not take, and goes on
  ClientBatch, ServerBatch,   \* messages handled before looking elsewhere (0: as long as there are any)
  NoWait,      \* the server does not wait for room in the command's standard input
  Linger,      \* the server reads until the client closes the connection, once it has sent the exit code
  EofAfter,    \* end of input is passed on after the input
  Outlive,     \* the server watches the connection also once the command has closed its output
  Watched      \* SUBSET {"stdin", "room", "in", "closed"}: what is waited for although nothing is to be done about it
               \* (input that has ended, room for no message, room for no input, output that has ended)

VARIABLES
  cpc,         \* what the client does: "poll", "stdin", "send", "sock"
  cready,      \* what poll() reported to it
  cleft,       \* messages it may still handle before the next poll
  cnow,        \* the message it handles
  pend,        \* the message it has not been able to send
  cin,         \* it reads its standard input
  cgot,        \* bytes it has read there
  up, down,    \* the connection
  spc,         \* what the server does: "start", "check", "poll", "out", "err", "sock", "in", "wait", "exit", "linger", "done"
  sready, sleft,
  ssend,       \* the message it is sending
  sbuf,        \* input it has not been able to pass on
  sclose,      \* the client's input has ended
  sin,         \* it has the command's standard input open
  sopen,       \* [Streams -> BOOLEAN] it has the command's output open
  reaped,      \* it knows that the command has ended
  inPipe, pipe \* bytes in the command's pipes

client == <<cpc, cready, cleft, cnow, pend, cin, cgot>>
server == <<spc, sready, sleft, ssend, sbuf, sclose, sin, sopen, reaped>>
conn == <<up, down>>
pipes == <<inPipe, pipe>>
all == <<vars, client, server, conn, pipes>>

M(k) == [k |-> k, v |-> 0]
None == M("none")

DesignInit ==
  /\ Init
  /\ startable \in (IF "nostart" \in Events THEN BOOLEAN ELSE {TRUE})
  /\ cpc = "poll" /\ cready = {} /\ cleft = 0 /\ cnow = None /\ pend = None /\ cin = TRUE /\ cgot = 0
  /\ up = <<>> /\ down = <<>>
  /\ spc = "start" /\ sready = {} /\ sleft = 0 /\ ssend = None /\ sbuf = 0 /\ sclose = FALSE
  /\ sin = TRUE /\ sopen = [s \in Streams |-> TRUE] /\ reaped = FALSE
  /\ inPipe = 0 /\ pipe = [s \in Streams |-> 0]

-----------------------------------------------------------------------------
(* The surroundings                                                          *)

ServerUp == spc # "done"
ClientUp == cli = "run"
Quiet == UNCHANGED <<client, server, conn, pipes>>

EnvInput == \/ inGiven < MaxIn /\ Give(1) /\ Quiet
            \/ cli = "run" /\ EndInput /\ Quiet
EnvOther == \/ "shut" \in Events /\ Shut /\ UNCHANGED <<client, server, conn, pipe>> /\ inPipe' = 0
            \/ "kill" \in Events /\ KillClient /\ Quiet
            \/ "lose" \in Events /\ ServerUp /\ Lose /\ spc' = "done"
                 /\ UNCHANGED <<client, sready, sleft, ssend, sbuf, sclose, sin, sopen, reaped, conn, pipes>>
            \/ "die" \in Events /\ CmdDie /\ Quiet
            \/ \E c \in Codes : CmdExit(c) /\ Quiet
            \/ \E s \in Streams : /\ \/ "close" \in Events /\ busy[s] # "cmd" /\ CloseOut(s)
                                     \/ "hold" \in Events /\ Hold(s)
                                     \/ busy[s] # "hold" /\ Release(s)
                                  /\ Quiet
CmdWrite(s) == \/ \E who \in {"cmd", "hold"} : wBeg[s] < MaxOut[s] /\ WriteBeg(s, who, 1) /\ Quiet
               \/ pipe[s] < Room /\ ServerUp /\ WriteDone(s) /\ pipe' = [pipe EXCEPT ![s] = @ + wBeg[s] - wDone[s]]
                    /\ UNCHANGED <<client, server, conn, inPipe>>
CmdRead == /\ cmd = "run" /\ ~inShut
           /\ \/ /\ inPipe > 0 /\ inPipe' = inPipe - 1
                 /\ inGot' = inGot + 1 /\ inEof' = inEof
              \/ /\ inPipe = 0 /\ (~sin \/ ~ServerUp) /\ ~inEof /\ inPipe' = inPipe
                 /\ inEof' = TRUE /\ inGot' = inGot
           /\ UNCHANGED <<inGiven, inEnd, inShut, outVars, endVars, client, server, conn, pipe>>

-----------------------------------------------------------------------------
(* The client                                                                *)

\* What the client finds at the connection's end.
Closed == down = <<>> /\ ~ServerUp
HasMessage == down # <<>> \/ Closed
HasInput == inGiven > cgot \/ inEnd \/ "in" \in Noise

Put(m) == Len(up) < Up /\ up' = Append(up, m)

ClientPoll ==
  /\ cpc = "poll"
  /\ \E flushed \in BOOLEAN :
       /\ flushed = (pend # None /\ Len(up) < Up)
       /\ up' = IF flushed THEN Append(up, pend) ELSE up
       /\ pend' = IF flushed THEN None ELSE pend
       /\ LET ready == (IF cin /\ HasInput /\ pend' = None THEN {"stdin"} ELSE {}) \cup (IF HasMessage THEN {"sock"} ELSE {})
                       \cup (IF "stdin" \in Watched /\ ~cin /\ inEnd THEN {"stdin"} ELSE {})
                       \cup (IF "room" \in Watched /\ Len(up') < Up THEN {"room"} ELSE {}) IN
            /\ ready # {} \/ flushed
            /\ cready' = ready
            /\ cpc' = IF ready = {} THEN "poll" ELSE "stdin"
  /\ cleft' = ClientBatch
  /\ UNCHANGED <<cnow, cin, cgot, down, server, pipes, vars>>

ClientStdin ==
  /\ cpc = "stdin"
  /\ IF "stdin" \notin cready \/ ~cin
       THEN cpc' = "sock" /\ UNCHANGED <<pend, cin, cgot>>
       ELSE /\ \/ /\ inGiven > cgot /\ cgot' = cgot + 1 /\ pend' = M("in") /\ cin' = cin
               \/ /\ inGiven = cgot /\ inEnd /\ "in" \notin Noise /\ pend' = M("eof") /\ cin' = FALSE /\ cgot' = cgot
               \/ /\ "in" \in Noise /\ pend' = M("noise") /\ UNCHANGED <<cgot, cin>>
            /\ cpc' = IF Pending THEN "sock" ELSE "send"
  /\ UNCHANGED <<cready, cleft, cnow, conn, server, pipes, vars>>

\* (only without Pending; a connection whose other end is gone takes everything)
ClientSend ==
  /\ cpc = "send"
  /\ \/ Put(pend)
     \/ ~ServerUp /\ up' = up
  /\ pend' = None /\ cpc' = "sock"
  /\ UNCHANGED <<cready, cleft, cnow, cin, cgot, down, server, pipes, vars>>

NoStatus == UNCHANGED <<inVars, outVars, endVars>>
ClientEnds(st) == /\ cli' = "end" /\ status' = st
                  /\ UNCHANGED <<inVars, outVars, cmd, code, term, startable, lost>>

ClientSock ==
  /\ cpc = "sock"
  /\ LET more == "sock" \in cready /\ (ClientBatch = 0 \/ cleft > 0) /\ HasMessage IN
     \/ /\ ~more /\ cpc' = "poll" /\ NoStatus
        /\ UNCHANGED <<cready, cleft, cnow, pend, cin, cgot, conn>>
     \/ /\ more /\ Closed
        /\ ClientEnds(134) /\ UNCHANGED <<client, conn>>
     \/ /\ more /\ down # <<>>
        /\ LET m == Head(down) IN
           /\ down' = Tail(down) /\ up' = up
           /\ cleft' = IF ClientBatch = 0 THEN 0 ELSE cleft - 1
           /\ CASE m.k \in Streams -> /\ dl' = [dl EXCEPT ![m.k] = @ + m.v] /\ UNCHANGED <<wBeg, wDone, busy, writers, dlEof, reader, inVars, endVars>>
                                      /\ cin' = cin
                [] m.k = "close" -> /\ dlEof' = [dlEof EXCEPT ![m.v] = TRUE] /\ UNCHANGED <<wBeg, wDone, busy, writers, dl, reader, inVars, endVars>>
                                    /\ cin' = cin
                [] m.k = "unwanted" -> cin' = FALSE /\ NoStatus
                [] m.k = "noise" -> cin' = cin /\ NoStatus
                [] m.k = "exit" -> cin' = cin /\ ClientEnds(m.v)
           /\ UNCHANGED <<cpc, cready, cnow, pend, cgot>>
  /\ UNCHANGED <<server, pipes>>

Client == ClientUp /\ (ClientPoll \/ ClientStdin \/ ClientSend \/ ClientSock)

-----------------------------------------------------------------------------
(* The server's session process                                              *)

ProcessEnded == cmd \in {"exit", "dead"} \/ (~startable)

\* The end of a session that has lost its client: its command, if it runs, is told to terminate.
GiveUp == /\ spc' = "done"
          /\ term' = (term \/ cmd = "run")
          /\ UNCHANGED <<sready, sleft, ssend, sbuf, sclose, sin, sopen, reaped, client, conn, pipes>>
          /\ UNCHANGED <<inVars, outVars, cmd, code, cli, status, startable, lost>>

ServerStart ==
  /\ spc = "start" /\ spc' = "check"
  /\ IF startable THEN /\ cmd' = "run" /\ writers' = [s \in Streams |-> {"cmd"}]
                       /\ UNCHANGED <<wBeg, wDone, busy, dl, dlEof, reader, inVars, code, term, cli, status, startable, lost>>
                  ELSE NoStatus
  /\ UNCHANGED <<sready, sleft, ssend, sbuf, sclose, sin, sopen, reaped, client, conn, pipes>>

Open == \E s \in Streams : sopen[s]

ServerCheck ==     \* the top of the loop
  /\ spc = "check"
  /\ IF ~(IF Outlive THEN ~reaped \/ Open ELSE Open)
       THEN spc' = "wait" /\ UNCHANGED <<reaped, sbuf, sin>>
       ELSE /\ spc' = "poll"
            /\ IF ~reaped /\ ProcessEnded
                 THEN reaped' = TRUE /\ sbuf' = 0 /\ sin' = FALSE
                 ELSE UNCHANGED <<reaped, sbuf, sin>>
  /\ UNCHANGED <<sready, sleft, ssend, sclose, sopen, client, conn, pipes, vars>>

OutReady(s) == sopen[s] /\ (pipe[s] > 0 \/ writers[s] = {} \/ (s = "err" /\ "out" \in Noise))
InReady == sin /\ (inPipe < Room \/ inShut)

\* (it also wakes up from time to time, to look whether the command has ended)
ServerPoll ==
  /\ spc = "poll"
  /\ LET ready == {s \in Streams : OutReady(s)} \cup (IF up # <<>> \/ ~ClientUp THEN {"sock"} ELSE {})
                    \cup (IF (sbuf > 0 \/ "in" \in Watched) /\ InReady THEN {"in"} ELSE {})
                    \cup (IF "closed" \in Watched /\ (\E s \in Streams : ~sopen[s]) THEN {"closed"} ELSE {}) IN
       /\ ready # {} \/ (ProcessEnded /\ (~reaped \/ ~Open))
       /\ sready' = ready
  /\ spc' = "out" /\ sleft' = ServerBatch
  /\ UNCHANGED <<ssend, sbuf, sclose, sin, sopen, reaped, client, conn, pipes, vars>>

Next(s) == IF s = "out" THEN "err" ELSE "sock"
\* One stream: a part of what the command wrote, or its end.  Sending waits for room.
ServerStream(s) ==
  /\ spc = s
  /\ \/ /\ s \notin sready /\ ssend = None /\ spc' = Next(s)
        /\ UNCHANGED <<ssend, sopen, down, pipe, vars>> /\ UNCHANGED <<sready, sleft, sbuf, sclose, sin, reaped, client, up, inPipe>>
     \/ /\ s \in sready /\ ssend = None
        /\ \/ /\ pipe[s] > 0 /\ pipe' = [pipe EXCEPT ![s] = 0] /\ ssend' = [k |-> s, v |-> pipe[s]] /\ sopen' = sopen
           \/ /\ pipe[s] = 0 /\ writers[s] = {} /\ ssend' = [k |-> "close", v |-> s] /\ sopen' = [sopen EXCEPT ![s] = FALSE] /\ pipe' = pipe
           \/ /\ "out" \in Noise /\ s = "err" /\ writers[s] # {} /\ ssend' = M("noise") /\ UNCHANGED <<sopen, pipe>>
        /\ spc' = spc
        /\ UNCHANGED <<down, vars, sready, sleft, sbuf, sclose, sin, reaped, client, up, inPipe>>
     \/ /\ ssend # None /\ ClientUp /\ Len(down) < Down
        /\ down' = Append(down, ssend) /\ ssend' = None /\ spc' = Next(s)
        /\ UNCHANGED <<sopen, pipe, vars, sready, sleft, sbuf, sclose, sin, reaped, client, up, inPipe>>
     \/ /\ ssend # None /\ ~ClientUp /\ GiveUp

ServerSock ==
  /\ spc = "sock"
  /\ LET more == "sock" \in sready /\ (ServerBatch = 0 \/ sleft > 0) IN
     \/ /\ ~more \/ (up = <<>> /\ ClientUp)
        /\ spc' = "in" /\ UNCHANGED <<sleft, sbuf, sclose, up>>
        /\ UNCHANGED <<sready, ssend, sin, sopen, reaped, client, down, pipes, vars>>
     \/ /\ more /\ up # <<>>
        /\ LET m == Head(up) IN
             /\ up' = Tail(up)
             /\ sleft' = IF ServerBatch = 0 THEN 0 ELSE sleft - 1
             /\ sbuf' = IF m.k = "in" /\ sin THEN sbuf + 1 ELSE sbuf
             /\ sclose' = (sclose \/ (m.k = "eof" /\ sin))
        /\ spc' = spc
        /\ UNCHANGED <<sready, ssend, sin, sopen, reaped, client, down, pipes, vars>>
     \/ /\ more /\ up = <<>> /\ ~ClientUp /\ GiveUp

\* Input for the command: as much as its pipe takes.
ServerIn ==
  /\ spc = "in"
  /\ \/ /\ sbuf > 0 /\ sin /\ inShut
        /\ sin' = FALSE /\ sbuf' = 0 /\ ssend' = M("unwanted") /\ spc' = "unwanted" /\ inPipe' = inPipe /\ sclose' = sclose
     \/ /\ sbuf > 0 /\ sin /\ ~inShut
        /\ inPipe < Room \/ NoWait
        /\ LET n == IF sbuf < Room - inPipe THEN sbuf ELSE Room - inPipe IN
             /\ inPipe' = inPipe + n /\ sbuf' = sbuf - n
             /\ IF sclose /\ (sbuf' = 0 \/ ~EofAfter) THEN sin' = FALSE /\ sclose' = FALSE ELSE UNCHANGED <<sin, sclose>>
        /\ spc' = "check" /\ ssend' = ssend
     \/ /\ sbuf = 0 \/ ~sin
        /\ IF sclose THEN sin' = FALSE /\ sclose' = FALSE ELSE UNCHANGED <<sin, sclose>>
        /\ spc' = "check" /\ UNCHANGED <<sbuf, ssend, inPipe>>
  /\ UNCHANGED <<sready, sleft, sopen, reaped, client, conn, pipe, vars>>

ServerUnwanted ==
  /\ spc = "unwanted"
  /\ \/ /\ ClientUp /\ Len(down) < Down /\ down' = Append(down, ssend) /\ ssend' = None /\ spc' = "check"
        /\ UNCHANGED <<sready, sleft, sbuf, sclose, sin, sopen, reaped, client, up, pipes, vars>>
     \/ ~ClientUp /\ GiveUp

ServerWait ==     \* (without Outlive: nothing else is looked at any more)
  /\ spc = "wait" /\ (reaped \/ ProcessEnded)
  /\ reaped' = TRUE
  /\ spc' = IF cmd = "exit" THEN "exit" ELSE "linger"
  /\ UNCHANGED <<sready, sleft, ssend, sbuf, sclose, sin, sopen, client, conn, pipes, vars>>

ServerExit ==
  /\ spc = "exit"
  /\ \/ ClientUp /\ Len(down) < Down /\ down' = Append(down, [k |-> "exit", v |-> code])
     \/ ~ClientUp /\ down' = down
  /\ spc' = "linger"
  /\ UNCHANGED <<sready, sleft, ssend, sbuf, sclose, sin, sopen, reaped, client, up, pipes, vars>>

\* Closing a connection with unread data discards what the client has not received.
ServerLinger ==
  /\ spc = "linger"
  /\ IF Linger
       THEN \/ /\ up # <<>> /\ up' = <<>> /\ UNCHANGED <<spc, down>>
            \/ /\ up = <<>> /\ ~ClientUp /\ spc' = "done" /\ UNCHANGED conn
            \/ /\ up = <<>> /\ ClientUp /\ down = <<>> /\ cmd # "exit" /\ spc' = "done" /\ UNCHANGED conn
       ELSE /\ spc' = "done" /\ up' = <<>>
            /\ down' = IF up = <<>> THEN down ELSE <<>>
  /\ UNCHANGED <<sready, sleft, ssend, sbuf, sclose, sin, sopen, reaped, client, pipes, vars>>

Server == ServerUp /\ (ServerStart \/ ServerCheck \/ ServerPoll \/ ServerStream("out") \/ ServerStream("err")
                         \/ ServerSock \/ ServerIn \/ ServerUnwanted \/ ServerWait \/ ServerExit \/ ServerLinger)

-----------------------------------------------------------------------------
Step == \/ EnvInput \/ EnvOther \/ (\E s \in Streams : CmdWrite(s)) \/ CmdRead
        \/ Client \/ Server

\* Whoever writes gets on when there is room; the client and the server get on when they can.
Going == /\ WF_all(Client) /\ WF_all(Server)
         /\ \A s \in Streams : WF_all(pipe[s] < Room /\ CmdWrite(s) /\ wDone' # wDone)
DesignSpec == DesignInit /\ [][Step]_all /\ Going
\* ... and if the command also reads whatever there is
ReadingSpec == DesignSpec /\ WF_all(CmdRead)

Refines == Init /\ [][Surroundings({1}, Codes) \/ System(1..(Room + 1), Codes \cup {134})]_vars

\* C04, C03, C05: without the command's help
OutputArrives == \A s \in Streams : OwesOutput(s) ~> ~OwesOutput(s)
CloseArrives == \A s \in Streams : OwesClose(s) ~> ~OwesClose(s)
EndArrives == OwesEnd ~> ~OwesEnd
TermArrives == OwesTerm ~> ~OwesTerm
\* C18: when nothing happens any more around them, client and server come to rest (without Noise).
ComesToRest == <>[][FALSE]_<<client, server, conn>>
\* C04, C01: if the command reads
InputArrives == (OwesInput ~> ~OwesInput) /\ (OwesEof ~> ~OwesEof)
=============================================================================
