-------------------------------- MODULE Env --------------------------------
(* C07: which environment a command gets.  A declaration is                  *)
(*   [kind, name, quote, parts]: kind "plain" (VAR=default), "opt" (?VAR=…)    *)
(*   or "inh" (=VAR=…); the default is a sequence of literals and references, *)
(*   quoted or not.                                                          *)
(* Environments are functions from names to values; a name that is not in    *)
(* the domain has no value.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Empty == [n \in {} |-> ""]
Lit(v) == [t |-> "lit", n |-> "", v |-> v]

\* A reference ("ref") to nothing is empty; one with a default ("refd") is that.
PartValue(p, env) ==
  IF p.t = "lit" THEN p.v
  ELSE IF p.n \in DOMAIN env THEN env[p.n]
  ELSE IF p.t = "refd" THEN p.v ELSE ""
RECURSIVE Subst(_, _)
Subst(parts, env) == IF parts = <<>> THEN "" ELSE PartValue(Head(parts), env) \o Subst(Tail(parts), env)

\* env1 before env2
Over(env1, env2) == [n \in DOMAIN env1 \cup DOMAIN env2 |-> IF n \in DOMAIN env1 THEN env1[n] ELSE env2[n]]

\* Unquoted and double-quoted text is expanded when the configuration is loaded.
Loaded(d, server) == IF d.quote = "sq" THEN d
                     ELSE [d EXCEPT !.parts = <<Lit(Subst(d.parts, server))>>]
NoDefault(parts) == \A i \in DOMAIN parts : parts[i].t = "lit" /\ parts[i].v = ""

Without(env, n) == [m \in DOMAIN env \ {n} |-> env[m]]
With(env, n, v) == [m \in DOMAIN env \cup {n} |-> IF m = n THEN v ELSE env[m]]

\* One declaration, given the variables resolved so far.
One(d, client, server, sofar) ==
  LET text == Subst(d.parts, Over(sofar, server)) IN
  CASE d.kind = "inh" ->
         IF ~NoDefault(d.parts) THEN With(sofar, d.name, text)
         ELSE IF d.name \in DOMAIN server THEN With(sofar, d.name, server[d.name]) ELSE Without(sofar, d.name)
    [] d.name \in DOMAIN client -> With(sofar, d.name, client[d.name])
    [] OTHER ->
         IF d.kind = "opt" /\ NoDefault(d.parts)
           THEN IF d.name \in DOMAIN sofar THEN sofar
                ELSE IF d.name \in DOMAIN server THEN With(sofar, d.name, server[d.name]) ELSE sofar
         ELSE With(sofar, d.name, text)

RECURSIVE Resolve(_, _, _, _)
Resolve(ds, client, server, sofar) ==
  IF ds = <<>> THEN sofar ELSE Resolve(Tail(ds), client, server, One(Head(ds), client, server, sofar))

\* What a client sends: its values of the variables declared in a form that takes them.
Sent(ds, client) == [n \in {ds[i].name : i \in {i \in DOMAIN ds : ds[i].kind # "inh"}} \cap DOMAIN client |-> client[n]]

Environment(ds, client, server) ==
  Resolve([i \in DOMAIN ds |-> Loaded(ds[i], server)], client, server, Empty)

Names(ds) == {ds[i].name : i \in DOMAIN ds}
-----------------------------------------------------------------------------
(* Consequences, for all declarations etc. of a model                        *)
OnlyDeclared(ds, client, server) == DOMAIN Environment(ds, client, server) \subseteq Names(ds)
\* Variables that a client does not send have no influence.
Confined(ds, client, server) == Environment(ds, client, server) = Environment(ds, Sent(ds, client), server)
\* An inherited variable (not declared otherwise, and not derived from others) is not the client's.
InheritedIsServers(ds, client, server) ==
  \A n \in Names(ds) :
    (\A i \in DOMAIN ds : ds[i].name = n => ds[i].kind = "inh" /\ \A j \in DOMAIN ds[i].parts : ds[i].parts[j].t = "lit")
      => LET e == Environment(ds, client, server) f == Environment(ds, Empty, server)
         IN (n \in DOMAIN e <=> n \in DOMAIN f) /\ (n \in DOMAIN e => e[n] = f[n])
\* The client's value is decisive for the last declaration that takes it, unchanged.
ClientDecides(ds, client, server) ==
  \A n \in Names(ds) \cap DOMAIN client :
    (\A i \in DOMAIN ds : ds[i].name = n => ds[i].kind # "inh") => Environment(ds, client, server)[n] = client[n]
\* A plain variable is never absent.
PlainPresent(ds, client, server) ==
  \A n \in Names(ds) : (\A i \in DOMAIN ds : ds[i].name = n => ds[i].kind = "plain") => n \in DOMAIN Environment(ds, client, server)
=============================================================================
