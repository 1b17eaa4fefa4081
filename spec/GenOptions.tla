----------------------------- MODULE GenOptions -----------------------------
(* Generates the options of servers.                                         *)
EXTENDS OptionsWorld, Json
CONSTANTS Host, Wrong, Drop, Lax \* Wrong: percentage of what should not be there;  Drop: of values that are missing;  Lax: of lists that begin with -i
VARIABLES step, x, cs
Rnd(S) == RandomElement(S)
P(p) == Rnd(1..100) <= p
W(t) == [o |-> "", v |-> t]
Kinds_ == <<"b", "d", "k", "l", "o", "w", "k", "l", "w", "e", "e", "e", "m", "m", "t", "t", "p", "i">>
LongFlag == [b |-> "--background", d |-> "--disable-client-executables", i |-> "--ignore-invalid-arguments", k |-> "--keep-client-executables",
             l |-> "--generate-local-executables", o |-> "--overwrite-client-executables", w |-> "--no-wait", s |-> "--server", h |-> "--help", v |-> "--version"]
ShortFlag == [b |-> "-b", d |-> "-d", i |-> "-i", k |-> "-k", l |-> "-l", o |-> "-o", w |-> "-w", s |-> "-s", h |-> "-h", v |-> "-v"]
ValuesOf(f) == CASE f = "e" -> {"D1", "D2", "D1/", "D2", "./D1", "D1/../D2", "nodir", "D2=D1", "D1/../D2=D1", "D2=D1/.."}
                 [] f = "m" -> {"0", "1", "2", "1000", "-1", "-7", "9223372036854775807"} \cup (IF P(Wrong) THEN {"x", "", "abc"} ELSE {})
                 [] f = "t" -> {"300", "3600000", "-1", "-7", "300", "9223372036854775807", "0"} \cup (IF P(Wrong) THEN {"x", "", "abc"} ELSE {})
                 [] f = "p" -> {"P1", "P2", "", "PX", "Q/none", "P1", "P2", "P=1", "=P1", "P1=", "P 1", "-P"}
                 [] f = "c" -> {"A", "B", "nofile", "A=B"}
                 [] f = "n" -> {"srv", "alt", Host, "ghost", "", "alt=srv"}
Flag_(f) == IF P(50) THEN <<W(ShortFlag[f])>> ELSE <<W(LongFlag[f])>>
Value_(f) == LET v == Rnd(ValuesOf(f)) IN
  CASE P(Drop) -> <<W(Valued[f][Rnd(1..2)])>>           \* it takes what follows, if anything does
    [] P(33) -> <<[o |-> Valued[f][2], v |-> v]>>
    [] OTHER -> <<W(Valued[f][Rnd(1..2)]), W(v)>>
One(f) == IF f \in DOMAIN Valued THEN Value_(f) ELSE Flag_(f)
Odd(here) == LET t == Rnd({"bogus", "--bogus", "-k1", "--", "-", "", "-t5", "--timeou", "--TIMEOUT", "-x", "D1", "300"}) IN
             IF P(30) THEN <<[o |-> Rnd({"--bogus", "--keep-client-executables", "--background"} \cup (IF here = "cli" THEN {"-t", "-e"} ELSE {})), v |-> Rnd({"1", "D1", ""})]>>
             ELSE IF here = "section" /\ P(50) THEN One(Rnd({"n", "c", "h", "v", "s"})) ELSE <<W(t)>>
Some(here) == CASE P(Wrong \div 2) -> Odd(here)
                [] here = "cli" /\ P(Wrong \div 4) -> Flag_(Rnd({"h", "v", "s"}))
                [] here = "cli" /\ P(4) -> Flag_("s")
                [] OTHER -> LET f == Kinds_[Rnd(1..Len(Kinds_))] IN
                            IF f = "b" THEN (IF P(50) THEN One("b") \o One("p") ELSE One("p") \o One("b")) ELSE One(f)
RECURSIVE Words_(_, _)
Words_(here, n) == IF n = 0 THEN <<>> ELSE Some(here) \o Words_(here, n - 1)
Words(here, n) == (IF P(Lax) THEN Flag_("i") ELSE <<>>) \o Words_(here, n)
\* the name and the configuration, somewhere between the other options
RECURSIVE Insert(_, _)
Insert(ws, opts) == IF opts = <<>> THEN ws ELSE LET w == Head(opts) IN
                    Insert(IF P(50) THEN w \o ws ELSE ws \o w, Tail(opts))
Cli(i) == LET ws == Words("cli", Rnd({0, 1, 2, 3, 5})) IN
          Insert(ws, (IF P(75) THEN <<IF P(85) THEN <<W(Valued["c"][Rnd(1..2)]), W(Rnd({"A", "B"}))>> ELSE One("c")>> ELSE <<>>)
                     \o (IF P(75) THEN <<IF P(85) THEN <<W(Valued["n"][Rnd(1..2)]), W("srv")>> ELSE One("n")>> ELSE <<>>))
AllNames == {"o1", "a1", "h1", "o2", "a2"}
Prior(i) == IF Rnd(1..4) = 1 THEN Rnd({"file", "link", "ours"}) ELSE "absent"
Before(q) == LET r == Rnd(1..3) IN IF r = 1 THEN [n \in AllNames |-> "absent"] ELSE ("o1" :> Prior(1)) @@ ("a1" :> Prior(2)) @@ ("h1" :> Prior(3)) @@ ("o2" :> Prior(4)) @@ ("a2" :> Prior(5))
Section(i) == Words("section", Rnd({0, 1, 2, 3}))
Init == step = 0 /\ x = <<>> /\ cs = <<>>
Choose == /\ step = 0 /\ step' = 1
          /\ \E a \in {Section(1)}, b \in {Section(2)}, h \in {Section(3)}, e \in {Section(4)}, f \in {Section(5)}, k \in {Rnd({"", "A", "B"})} :
             LET A == ("srv" :> [words |-> a, own |-> {"o1"}]) @@ ("alt" :> [words |-> b, own |-> {"a1"}]) @@ (Host :> [words |-> h, own |-> {"h1"}])
                 B == ("srv" :> [words |-> e, own |-> {"o2"}]) @@ ("alt" :> [words |-> f, own |-> {"a2"}]) @@ (Host :> [words |-> f, own |-> {}])
             IN cs' = ("A" :> A) @@ ("B" :> B) @@ (IF k = "" THEN <<>> ELSE "k8psh.conf" :> IF k = "A" THEN A ELSE B)
          /\ \E w \in {Cli(0)}, n \in {Rnd({"(unset)", "(unset)", "srv", "alt", "ghost", Host})}, c \in {Rnd({"(unset)", "(unset)", "A", "B", "nofile"})}, f \in {Rnd({"k8pshd", "k8pshd", "k8psh -s"})},
                cwd \in {Before(1)}, d1 \in {Before(2)}, d2 \in {Before(3)}, d3 \in {Before(4)} :
             x' = [cli |-> (IF f = "k8pshd" THEN <<>> ELSE <<W(Rnd({"-s", "--server"}))>>) \o w, form |-> f, name |-> n, config |-> c, host |-> Host, default |-> "k8psh.conf",
                   before |-> ("." :> cwd) @@ ("D1" :> d1) @@ ("D2" :> d2) @@ ("D2=D1" :> d3), pids |-> ("PX" :> "theirs")]
Emit == /\ step = 1 /\ step' = 2 /\ UNCHANGED <<x, cs>>
        /\ LET r == Outcome(x, cs) c == Cfg(r, x) run == r.out = "run" IN
           PrintT("SCHEDULE " \o ToJson([x |-> x, configs |-> cs, out |-> r.out, runs |-> run /\ RunsAtAll(c), bg |-> run /\ c.bg, nowait |-> run /\ c.nowait,
             ends |-> run /\ Ends(c), short |-> run /\ Short(c), max |-> IF run THEN c.max ELSE -1, pid |-> IF run /\ UsesPid(c) THEN r.p ELSE "",
             files |-> IF run /\ RunsAtAll(c) THEN Apply(x.before, DirOf(r.e), Linked(c)) ELSE x.before]))
GenSpec == Init /\ [][Choose \/ Emit]_<<step, x, cs>>
=============================================================================
