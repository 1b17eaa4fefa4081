------------------------------- MODULE MCEnv -------------------------------
(* Env for all lists of up to MaxDecls small declarations.                   *)
EXTENDS Env
CONSTANTS MaxDecls, Vars, Vals
VARIABLES ds, client, server
Templates == {<<>>, <<Lit("x")>>} \cup {<<[t |-> "ref", n |-> n, v |-> ""]>> : n \in Vars}
             \cup {<<Lit("y"), [t |-> "refd", n |-> n, v |-> "z"]>> : n \in Vars}
Decls == {[kind |-> k, name |-> n, quote |-> q, parts |-> p] :
            k \in {"plain", "opt", "inh"}, n \in Vars, q \in {"sq", "dq"}, p \in Templates}
Envs == UNION {[S -> Vals] : S \in SUBSET Vars}
Init == ds = <<>> /\ client \in Envs /\ server \in Envs
Next == Len(ds) < MaxDecls /\ \E d \in Decls : ds' = Append(ds, d) /\ UNCHANGED <<client, server>>
Spec == Init /\ [][Next]_<<ds, client, server>>
Inv == /\ OnlyDeclared(ds, client, server) /\ Confined(ds, client, server)
       /\ InheritedIsServers(ds, client, server) /\ ClientDecides(ds, client, server)
       /\ PlainPresent(ds, client, server)
=============================================================================
