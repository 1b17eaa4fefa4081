--------------------------- MODULE ServerSession ---------------------------
(* One connection to a server: the request that precedes the execution       *)
(* (C08), and then the execution itself, as RemoteExec describes it, with    *)
(* the peer on the connection in the place of the client:                    *)
(*    Give / EndInput      stdin messages            Got / Eof   (command)   *)
(*    Deliver / DeliverEof stdout and stderr messages                        *)
(*    CliEnd(c)            exit code message c       CliEnd(-1)  end of the  *)
(*                         connection without an exit code                   *)
(*    KillClient           the peer disconnects or breaks the protocol       *)
EXTENDS RemoteExec, Sequences

VARIABLE req   \* "open": request incomplete; "start": complete and valid; "bad"

reqVars == <<vars, req>>

\* Messages, as far as a server distinguishes them before the command runs.
Parts == {"wd", "wdok", "wdbad", "env", "arg"}   \* (directories that exist, and one that does not)
Starts == {"start"}                \* names a command of this server
Invalid == {"unknown",             \* names no command, or another server's
            "stdin", "stdin0", "stdout", "stderr", "terminate", "exit", "type9", "type255"}
Kinds == Parts \cup Starts \cup Invalid

After(r, k) == IF r # "open" THEN r
               ELSE IF k \in Parts THEN "open"
               ELSE IF k \in Starts THEN "start" ELSE "bad"

\* A complete message of the request has been sent (or enough of it to be invalid).
Frame(k) == /\ req = "open" /\ cli = "run"
            /\ req' = After(req, k)
            /\ startable' = CASE k = "wdbad" -> FALSE [] k = "wdok" -> TRUE [] OTHER -> startable
            /\ UNCHANGED <<inVars, outVars, cmd, code, term, cli, status, lost>>

SStart == req = "start" /\ Start /\ UNCHANGED req

\* The server ends the connection: never during a request that may still be completed.
SCliEnd(st) == req \in {"start", "bad"} /\ (req = "bad" => st < 0) /\ UNCHANGED req
               /\ IF req = "bad" THEN cli = "run" /\ cli' = "end" /\ status' = st
                                      /\ UNCHANGED <<inVars, outVars, cmd, code, term, startable, lost>>
                  ELSE CliEnd(st)

\* A code that a server sends is that of a command that exited.
ServerEnd(st) == (st >= 0 => cmd = "exit" /\ st = code) /\ SCliEnd(st)

\* Where a server listens: explicit ports, or the one after the previous section's (from 1120 on).
RECURSIVE PortOf(_, _)
PortOf(explicit, i) == IF explicit[i] > 0 THEN explicit[i] ELSE IF i = 1 THEN 1120 ELSE PortOf(explicit, i - 1) + 1
ListenOk(explicit, i, addresses) == addresses = {<<"127.0.0.1", PortOf(explicit, i)>>}

OwesReject == req = "bad" /\ cli = "run"

SInit == Init /\ req = "open"
SNext(Sizes, Codes, Statuses) ==
  \/ \E k \in Kinds : Frame(k)
  \/ Surroundings(Sizes, Codes) /\ UNCHANGED req
  \/ SStart \/ (\E st \in Statuses : ServerEnd(st))
  \/ (Eof \/ Term \/ (\E n \in Sizes : Got(n))
      \/ \E s \in Streams : DeliverEof(s) \/ \E n \in Sizes : Deliver(s, n)) /\ UNCHANGED req

\* C08: a command only for a complete and valid request.
StartedOnlyIfValid == cmd # "off" => req = "start"
NoCodeForBad == req = "bad" => cmd = "off" /\ (cli = "end" => status < 0)
\* C08: what a request means depends on its messages only (not on when they arrive):
\* once decided it stays decided.
Decided == [][req # "open" => req' = req]_reqVars
=============================================================================
