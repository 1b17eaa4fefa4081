--------------------------- MODULE MCRemoteExec ---------------------------
(* Exhaustive check of the contract itself on small constants.             *)
EXTENDS RemoteExec
CONSTANTS Sizes, Codes, MaxIn, MaxOut, MaxErr
Next == Surroundings(Sizes, Codes) \/ System(Sizes, Codes \cup {134})
Spec == Init /\ [][Next]_vars
Bound == inGiven <= MaxIn /\ wBeg["out"] <= MaxOut /\ wBeg["err"] <= MaxErr

\* Nothing is undone: end-of-file, ends and signals are final, counts only grow.
Monotone ==
  [][/\ inGot' >= inGot /\ inGiven' >= inGiven
     /\ \A s \in Streams : dl'[s] >= dl[s] /\ (dlEof[s] => dl'[s] = dl[s])
     /\ (cli = "end" => cli' = "end" /\ status' = status)
     /\ (inEof /\ Attached => inGot' = inGot)
     /\ (cmd \in {"exit", "dead"} => cmd' = cmd /\ inGot' = inGot)]_vars
===========================================================================
