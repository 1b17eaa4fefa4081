----------------------------- MODULE GenConnect -----------------------------
(* Generates timeouts, and histories of what listens when.                   *)
EXTENDS Connect, TLC, Json
CONSTANTS Far      \* names of timeouts that never expire while a client is observed
VARIABLES step, c
Rnd(S) == RandomElement(S)
\* times near which an attempt of a client is expected, and others
Times == {1, 20, 60, 110, 200, 230, 400, 500, 700, 1000, 1200, 1700, 2000, 2100, 2500, 3100, 4100}
Near(t) == t + Rnd({-40, -15, 0, 10, 35, 60})
Pos(x) == IF x < 1 THEN 1 ELSE x
Timeout(i) == CASE Rnd(1..10) <= 4 -> Rnd(Far) [] OTHER -> ToString(Rnd({0, 0, 1, 5, 50, 100, 300, 700, 1500, 2500, 3500}))
\* (the scenario's ups are relative to the client's start; 0: before it)
Up(i) == CASE Rnd(1..8) = 1 -> <<>>
           [] Rnd(1..6) = 1 -> <<[a |-> 0, b |-> -1]>>
           [] Rnd(1..4) = 1 -> LET a == Rnd(Times) IN LET n == Rnd({5, 40, 200, 700}) IN <<[a |-> a, b |-> a + n], [a |-> a + n + Rnd({30, 300, 1000}), b |-> -1]>>
           [] OTHER -> <<[a |-> Pos(Near(Rnd(Times))), b |-> -1]>>
GenInit == step = 0 /\ c = <<>>
Make == /\ step = 0 /\ step' = 1
        /\ \E t \in {Timeout(0)}, u \in {Up(0)}, f \in {Rnd({"serve", "serve", "slow", "late", "close", "reset", "unread"})}, x \in {Rnd({"plain", "stub", "env"})},
             s \in {Rnd({0, 0, 0, 0, 1, 3})} :
             c' = [timeout |-> t, ups |-> u, how |-> f, form |-> x, self |-> s, code |-> Rnd({0, 1, 77, 255})]
Emit == step = 1 /\ step' = 2 /\ PrintT("SCHEDULE " \o ToJson(c)) /\ UNCHANGED c
GenSpec == GenInit /\ [][Make \/ Emit]_<<step, c>>
=============================================================================
