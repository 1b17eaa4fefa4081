----------------------------- MODULE MCConnect -----------------------------
(* A client that waits 32, 64, ... up to 1000 ms between its attempts, and   *)
(* makes the last one when the timeout expires: it does what Connect allows, *)
(* however long each step is delayed (up to Delay), whenever somebody        *)
(* listens.                                                                  *)
EXTENDS Connect, TLC, FiniteSets
CONSTANTS Timeouts, Starts, Lengths, Delays, Horizon, First, Cap, Last
VARIABLES now, wait, next, start, o
all == <<now, wait, next, start, o>>

Never == 999999      \* among Timeouts (TLC takes no negative numbers)
Ups == {<<>>} \cup {<<[a |-> a, b |-> -1]>> : a \in Starts} \cup {<<[a |-> a, b |-> a + n]>> : a \in Starts, n \in Lengths}
       \cup {<<[a |-> x[1], b |-> x[1] + x[2]], [a |-> x[1] + x[2] + x[3], b |-> -1]>> : x \in Starts \X Lengths \X Lengths}
Init == /\ now = 0 /\ wait = First \div 2
        /\ \E d \in Delays : next = d /\ start = d
        /\ \E t \in Timeouts, u \in Ups, f \in {"serve", "drop"} :
             o = [t |-> IF t = Never THEN -1 ELSE t, ups |-> u, conns |-> <<>>, reqs |-> 0, fate |-> f, lag |-> 0, hold |-> 0, code |-> 7, end |-> -1, status |-> 0, watch |-> 0]
Listening(x) == \E i \in DOMAIN o.ups : o.ups[i].a <= x /\ (o.ups[i].b < 0 \/ x < o.ups[i].b)
Deadline == start + o.t
Attempt ==
  /\ o.end < 0 /\ ~Connected(o) /\ next <= Horizon
  /\ now' = next /\ UNCHANGED start
  /\ IF Listening(next)
     THEN /\ o' = [o EXCEPT !.conns = <<next>>, !.reqs = IF o.fate = "serve" THEN 1 ELSE 0, !.watch = next, !.end = next, !.status = IF o.fate = "serve" THEN o.code ELSE 134]
          /\ UNCHANGED <<wait, next>>
     ELSE \E d \in Delays :
            IF o.t >= 0 /\ next >= Deadline
            THEN o' = [o EXCEPT !.end = next + d, !.status = 134, !.watch = next + d] /\ UNCHANGED <<wait, next>>
            ELSE LET w == Min(2 * wait, Cap)
                     s == IF o.t < 0 \/ ~Last THEN next + w ELSE Min(next + w, Deadline)
                 IN wait' = w /\ next' = s + d /\ o' = [o EXCEPT !.watch = next]
Spec == Init /\ [][Attempt]_all
\* (observations are made when something happens)
AtMost == 4 * CHOOSE d \in Delays : \A e \in Delays : e <= d
Good == Allowed(o, AtMost)
Single == Once(o)
=============================================================================
