------------------------------- MODULE GenLog -------------------------------
(* Generates what is asked for, where the log goes, and what a server does   *)
(* meanwhile.                                                                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Known, ServedPercent
VARIABLES step, c
Rnd(S) == RandomElement(S)
P(p) == Rnd(1..100) <= p
RECURSIVE Seq0(_, _)
Seq0(S, n) == IF n = 0 THEN <<>> ELSE <<Rnd(S)>> \o Seq0(S, n - 1)
\* pieces of a list; case and more is changed later
Piece(i) == CASE Rnd(1..10) <= 5 -> Rnd(Known) [] Rnd(1..4) = 1 -> "all" [] OTHER -> Rnd({"x", "Mai", "ain", "l", "Al", "Pro cess", "Main.cxx", "a l l", "MainMain", "allMain", "-", "none", "*"})
Gap(i) == Rnd({"", "", " ", "  ", "\t", "\n", " \t"})
RECURSIVE List(_)
List(n) == IF n = 0 THEN <<>> ELSE <<Gap(n), IF P(8) THEN "" ELSE Piece(n), Gap(n), IF n = 1 /\ P(85) THEN "" ELSE IF P(6) THEN " " ELSE Rnd({",", ",", ";"})>> \o List(n - 1)
ListOf(i) == CASE P(20) -> <<"all">> [] P(5) -> <<>> [] OTHER -> List(Rnd({1, 1, 2, 2, 3, 5}))
Hows == {"run", "run", "run", "bad", "vanish", "unknown", "kill", "nostart"}
GenInit == step = 0 /\ c = <<>>
Make == /\ step = 0 /\ step' = 1
        /\ \E served \in {P(ServedPercent)}, list \in {ListOf(0)}, cs \in {Rnd({"as is", "as is", "upper", "lower", "mixed"})}, n \in {Rnd(0..4)},
              out \in {Rnd({"file", "append", "pipe", "pipe", "pty", "gone", "gone", "leaves", "closed", "full", "null"})},
              err \in {Rnd({"file", "append", "pipe", "gone", "gone", "leaves", "closed", "full", "null"})} :
           c' = IF served THEN [kind |-> "served", list |-> list, case |-> cs, out |-> out, err |-> IF P(20) /\ out \notin {"leaves", "pty"} THEN "same" ELSE err, sessions |-> Seq0(Hows, n), par |-> P(40),
                                end |-> Rnd({"term", "int", "hup", "max", "time", "taken", "taken", "storm"}), strays |-> P(40), many |-> Rnd({1, 4, 30})]
                ELSE [kind |-> "select", list |-> list, case |-> cs]
Emit == step = 1 /\ step' = 2 /\ PrintT("SCHEDULE " \o ToJson(c)) /\ UNCHANGED c
GenSpec == GenInit /\ [][Make \/ Emit]_<<step, c>>
=============================================================================
