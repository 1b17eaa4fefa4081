------------------------------ MODULE JudgeEnv ------------------------------
EXTENDS Judging, Env
Fn(P) == [n \in {p[1] : p \in P} |-> (CHOOSE p \in P : p[1] = n)[2]]
\* Observed: the strings of a command's environment, split at the first '='
\* (a list: a variable that is there twice is not what Env says).
EnvGood(ev) ==
  /\ ev.e = "Env"
  /\ LET f == Environment(ev.ds, Fn(SetOf(ev.client)), Fn(SetOf(ev.server))) IN
     /\ Len(ev.got) = Cardinality(DOMAIN f)
     /\ SetOf(ev.got) = {<<n, f[n]>> : n \in DOMAIN f}
=============================================================================
