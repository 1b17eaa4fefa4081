----------------------------- MODULE GenInstall -----------------------------
(* Generates destinations, and what goes wrong.                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Priors, FaultPercent
VARIABLES step, c
Rnd(S) == RandomElement(S)
P(p) == Rnd(1..100) <= p
EINTR == -4
\* what becomes of consecutive transfers: 1000000: all;  n: at most n;  -e: error e
RECURSIVE Many(_, _)
Many(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Many(x, n - 1)
Places == {0, 0, 1, 2, 3, 5, 10, 20, 40, 60, 80, 100, 120}
Transfers(errs, some) == IF P(50) THEN <<>>
  ELSE Many(1000000, Rnd(Places)) \o
       CASE Rnd(1..4) = 1 -> Many(EINTR, Rnd({1, 2, 5}))
         [] Rnd(1..3) = 1 -> Many(Rnd({1, 4095, 8191, 100} \cup some), Rnd({1, 1, 3}))
         [] OTHER -> <<Rnd(errs)>>
One(p, errs) == IF P(p) THEN <<Rnd(errs)>> ELSE <<>>
GenInit == step = 0 /\ c = <<>>
Make == /\ step = 0 /\ step' = 1
        /\ \E faulty \in {P(FaultPercent)}, prior \in {Rnd(Priors)}, src \in {Rnd({"plain", "plain", "plain", "plain", "symlink", "deep", "deleted"})} :
           \E li \in {IF faulty THEN One(70, {18, 1, 31, 95}) ELSE <<>>}, r \in {IF faulty THEN One(5, {24, 13, 5}) ELSE <<>>}, w \in {IF faulty THEN One(10, {28, 30, 26, 13}) ELSE <<>>},
              rd \in {IF faulty THEN Transfers({-5, -116}, {}) ELSE <<>>}, wr \in {IF faulty THEN Transfers({-28, -5, -122}, {0}) ELSE <<>>} :
           c' = [prior |-> prior, source |-> src, link |-> li, openr |-> r, openw |-> w, read |-> rd, write |-> wr,
                 form |-> Rnd({"separate", "joined", "config"}), umask |-> Rnd({18, 63, 23, 0}), mode |-> Rnd({420, 493, 384, 448}), rel |-> P(40)]
Emit == step = 1 /\ step' = 2 /\ PrintT("SCHEDULE " \o ToJson(c)) /\ UNCHANGED c
GenSpec == GenInit /\ [][Make \/ Emit]_<<step, c>>
=============================================================================
