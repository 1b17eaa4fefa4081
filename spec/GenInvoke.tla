----------------------------- MODULE GenInvoke -----------------------------
EXTENDS InvokeWorld, Json
CONSTANTS Lengths
VARIABLES inv, step, good   \* good: nothing but (probably) valid choices
Rnd(S) == RandomElement(S)
Names == {"run", "run", "two", "tool", "rel", "ghost", "far", "nope", "k8psh2", "k8pshd2"}
ArgTokens == {"", "x", "-c", "--config=B", "-v", "--help", "--server", "-s", "a b", "q'\"", "NL", "$HOME", "${HOME}", "LONG", "BYTES", "*", "\\", "--", "-", "=", "run", "LONG2"}
Opt(i) == LET k == Rnd(1..(IF good THEN 10 ELSE 14)) f == Rnd({"A", "A", "B", "N"}) IN
  CASE k \in {1, 2, 3} -> <<"-c", f>> [] k \in {4, 5, 6} -> <<"--config", f>> [] k \in {7, 8, 9, 10} -> <<"--config=" \o f>>
    [] k = 11 -> <<Rnd({"-v", "--version", "-h", "--help"})>>
    [] k = 12 -> <<Rnd({"-c", "--config"}), Rnd({"nofile", "-v", "", "--config=A"})>>
    [] k = 13 -> <<Rnd({"--config=", "--config=nofile"})>>
    [] OTHER -> <<Rnd({"--configA", "-cA", "-x", "--bogus", "", "--", "-C"})>>
RECURSIVE Opts(_)
Opts(k) == IF k = 0 THEN <<>> ELSE Opt(k) \o Opts(k - 1)
RECURSIVE Args(_)
Args(k) == IF k = 0 THEN <<>> ELSE <<Rnd(ArgTokens)>> \o Args(k - 1)
GenInit == inv = <<>> /\ step = 0 /\ good = TRUE
Front(i) == IF ~good /\ Rnd(1..6) = 1 THEN <<Rnd({"-c", "--config"})>> ELSE <<Rnd(IF good THEN {"run", "two", "far", "tool", "k8psh2", "k8pshd2"} ELSE Names)>> \o Args(Rnd(Lengths))
Mood == /\ step = 0 /\ step' = 1 /\ good' = (Rnd(1..3) < 3) /\ UNCHANGED inv
Make == /\ step = 1 /\ step' = 2 /\ UNCHANGED good
        /\ inv' = [form |-> Rnd({"plain", "stub", "path"}), name |-> Rnd(IF good THEN {"run", "two", "far", "tool", "k8psh2", "k8pshd2"} ELSE Names \cup {"it's"}), argv |-> <<>>,
                   env |-> IF good THEN "A" ELSE Rnd({Unset, "A", "B", "nofile"}), cwd |-> Rnd(IF good THEN {Client \o d : d \in ServerDirs} ELSE Cwds)]
Fill == /\ step = 2 /\ step' = 3 /\ UNCHANGED good
        /\ inv' = [inv EXCEPT !.argv = IF inv.form = "plain" THEN Opts(Rnd({0, 1, 1, 2, 3})) \o Front(inv) ELSE Args(Rnd(Lengths))]
Emit == /\ step = 3 /\ step' = 4 /\ UNCHANGED <<inv, good>>
        /\ PrintT("SCHEDULE " \o ToJson([inv |-> inv, expected |-> Outcome(inv, World, J)]))
GenNext == Mood \/ Make \/ Fill \/ Emit
GenSpec == GenInit /\ [][GenNext]_<<inv, step, good>>
=============================================================================
