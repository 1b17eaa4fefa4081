------------------------------ MODULE MCInvoke ------------------------------
(* Consequences of Invoke, for all short argument lists.                     *)
EXTENDS InvokeWorld
CONSTANTS MaxArgs, Tokens
VARIABLES form, name, argv, env, cwd
Init == /\ argv = <<>> /\ form \in {"plain", "stub"} /\ name \in {"run", "two", "far", "nope"} /\ (form = "plain" => name = "run")
        /\ env \in {Unset, "A", "nofile"} /\ cwd \in {<<>>, Client, <<"cbase", "sub">>, <<"cbase", "only">>, <<"cbase2">>}
Next == Len(argv) < MaxArgs /\ \E t \in Tokens : argv' = Append(argv, t) /\ UNCHANGED <<form, name, env, cwd>>
Spec == Init /\ [][Next]_<<form, name, argv, env, cwd>>
inv == [form |-> form, name |-> name, argv |-> argv, env |-> env, cwd |-> cwd]
out == Outcome(inv, World, J)
\* Everything after the command name, and everything a client executable is given, is the command's.
ArgsKept ==
  out.out = "run" =>
    \E k \in 0..Len(argv) :
      /\ \E n \in 0..Len(out.argv) : SubSeq(out.argv, n + 1, Len(out.argv)) = Suffix(argv, k + 1)
      /\ form = "stub" => k = 0
      /\ form = "plain" => k > 0 /\ argv[k] \in DOMAIN World.servers[out.server]
      /\ out.argv = World.servers[out.server][IF form = "stub" THEN name ELSE argv[k]].exe \o Suffix(argv, k + 1)
\* More arguments never change the meaning of what precedes the command.
Extends == [][out.out = "run" => /\ out'.out = "run" /\ out'.dir = out.dir /\ out'.server = out.server
                                 /\ out'.argv = Append(out.argv, argv'[Len(argv')])]_<<argv>>
OnlyBelowBase == out.out = "run" => Prefix(Client, cwd)
=============================================================================
