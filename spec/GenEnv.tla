------------------------------- MODULE GenEnv -------------------------------
(* Generates servers with declarations, and clients' environments, with the  *)
(* environment that Env demands.                                             *)
EXTENDS Env, Json
CONSTANTS Commands, Clients
VARIABLES server, section, cmds, cur, done
gvars == <<server, section, cmds, cur, done>>

Vars == {"VA", "VB", "VC", "V_1"}
Refs == Vars \cup {"SX", "UX", "HOME"}
\* (no text that makes "${": what it means is for other modules)
Literals == {"", "x", "y", "a=b", "sp ace", "it's", "$", "}", "$VA", "%", ":-", "#", "\\"}
ServerValues == {"", "s", "a=b", "sp ace", "it's \"q\"", "=", "?", "#x", "LONG", "BYTES"}
Values == {"", "c", "a=b", "sp ace", "${SX}", "${UX:-d}", "it's \"q\"", "=", "?", "#x", "LONG", "BYTES"}
Rnd(S) == RandomElement(S)
Part(i) == LET k == Rnd(1..4) IN
  CASE k \in {1, 2} -> [t |-> "lit", n |-> "", v |-> Rnd(Literals)]
    [] k = 3 -> [t |-> "ref", n |-> Rnd(Refs), v |-> ""]
    [] OTHER -> [t |-> "refd", n |-> Rnd(Refs), v |-> Rnd({"", "d", "a b", "-", ":", "\"", "x:-y"})]
RECURSIVE Parts(_)
Parts(k) == IF k = 0 THEN <<>> ELSE <<Part(k)>> \o Parts(k - 1)
Decl(i) == [kind |-> Rnd({"plain", "opt", "inh"}), name |-> Rnd(Vars), quote |-> Rnd({"sq", "dq", "bare"}), parts |-> Parts(Rnd(0..3))]
RECURSIVE Decls(_)
Decls(k) == IF k = 0 THEN <<>> ELSE <<Decl(k)>> \o Decls(k - 1)
EnvOf(S, V) == LET D == Rnd(SUBSET S) IN {<<n, Rnd(V)>> : n \in D}
Fn(P) == [n \in {p[1] : p \in P} |-> (CHOOSE p \in P : p[1] = n)[2]]

GenInit == server = {} /\ section = <<>> /\ cmds = <<>> /\ cur = <<>> /\ done = 0
\* (every random choice is made once, by being assigned to a variable)
Setup == /\ done = 0 /\ done' = 1 /\ server' = EnvOf(Vars \cup {"SX", "HOME", "SECRET"}, ServerValues)
         /\ section' = Decls(Rnd(0..2)) /\ UNCHANGED <<cmds, cur>>
Declare == /\ done = 1 /\ Len(cmds) < Commands /\ done' = 2
           /\ cur' = [ds |-> Decls(Rnd(0..4)), clients |-> <<>>] /\ UNCHANGED <<server, section, cmds>>
Client == /\ done = 2 /\ Len(cur.clients) < Clients
          /\ cur' = [cur EXCEPT !.clients = Append(@, EnvOf(Vars \cup {"SX", "UX", "SECRET"}, Values))]
          /\ UNCHANGED <<server, section, cmds, done>>
Pack == /\ done = 2 /\ Len(cur.clients) = Clients /\ done' = 1
        /\ cmds' = Append(cmds, cur) /\ UNCHANGED <<server, section, cur>>
Pairs(f) == {<<n, f[n]>> : n \in DOMAIN f}
Expected(c) == [i \in DOMAIN c.clients |-> Pairs(Environment(section \o c.ds, Fn(c.clients[i]), Fn(server)))]
Emit == /\ done = 1 /\ Len(cmds) = Commands /\ done' = 3 /\ UNCHANGED <<server, section, cmds, cur>>
        /\ PrintT("SCHEDULE " \o ToJson([server |-> server, section |-> section,
              cmds |-> [k \in DOMAIN cmds |-> [ds |-> cmds[k].ds, clients |-> cmds[k].clients, expected |-> Expected(cmds[k])]]]))
GenNext == Setup \/ Declare \/ Client \/ Pack \/ Emit
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
