------------------------------ MODULE Connect ------------------------------
(* C15: how a client connects.  Times are milliseconds since the client was  *)
(* started; a timeout or an end of -1 is "never".                            *)
(*                                                                           *)
(* o: [t: the timeout;  ups: when somebody listens, as a sequence of [a, b]; *)
(*   conns: when connections were accepted;  reqs: complete requests;        *)
(*   fate: what became of the session ("serve", "drop");                     *)
(*   lag: how long it took the listener to accept;  hold: how long the       *)
(*   command ran;  code: the command's exit code;                            *)
(*   end, status: the client's end (-1 while running);                       *)
(*   used: how much processor time it had used when it was last looked at;   *)
(*   watch: until when it was observed]                                      *)
EXTENDS Integers, Sequences

Soon == 1000                               \* the longest pause between two attempts
Min(a, b) == IF a < b THEN a ELSE b
Before(x, t) == t < 0 \/ x <= t            \* x is not after t, which may be never
\* Somebody listens from a, within the timeout, and long enough for the next attempt (at the latest the one when it expires).
Caught(o, a, b, slack) == Before(a, o.t) /\ (b < 0 \/ b >= slack + (IF o.t < 0 THEN a + Soon ELSE Min(a + Soon, o.t)))
Connected(o) == o.conns # <<>>

Once(o) == Len(o.conns) <= 1 /\ o.reqs <= 1
Prompt(o, slack) ==
  \A i \in DOMAIN o.ups : LET u == o.ups[i] IN
    Caught(o, u.a, u.b, slack) =>
      \/ Connected(o) /\ o.conns[1] <= (IF u.a = 0 THEN 0 ELSE u.a + Soon) + o.lag + slack
      \/ ~Connected(o) /\ o.end < 0 /\ o.watch < u.a + Soon + o.lag + slack
NotLong(o, slack) == Connected(o) => Before(o.conns[1], IF o.t < 0 THEN -1 ELSE o.t + o.lag + slack)
Served(o, slack) ==
  Connected(o) =>
    IF o.fate = "serve" THEN /\ o.end < 0 => o.watch < o.conns[1] + o.hold + slack
                             /\ o.end >= 0 => o.reqs = 1 /\ o.status = o.code
    ELSE (o.end < 0 => o.watch < o.conns[1] + slack) /\ (o.end >= 0 => o.status # 0)
Expires(o, slack) ==
  ~Connected(o) =>
    /\ o.end >= 0 => o.status # 0 /\ o.t >= 0 /\ o.end >= o.t /\ o.end <= o.t + slack
    /\ o.end < 0 => o.t < 0 \/ o.watch < o.t + slack
Allowed(o, slack) == Once(o) /\ Prompt(o, slack) /\ NotLong(o, slack) /\ Served(o, slack) /\ Expires(o, slack)

\* C18: waiting for a server costs next to nothing (used: milliseconds of processor time; starting a program costs some).
Frugal(o) == o.used <= 100 + (IF o.end >= 0 THEN o.end ELSE o.watch) \div 10
=============================================================================
