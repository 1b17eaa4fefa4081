------------------------------ MODULE MCPaths ------------------------------
(* Every location has exactly one normal path, for all short paths; being    *)
(* below is a partial order that agrees with locations.                      *)
EXTENDS Paths
CONSTANTS Chars, MaxLen, MaxPair
VARIABLES p, q
Init == p = <<>> /\ q = <<>>
Next == \/ Len(p) < MaxLen /\ q = <<>> /\ \E c \in Chars : p' = Append(p, c) /\ UNCHANGED q
        \/ Len(p) <= MaxPair /\ Len(q) < MaxPair /\ \E c \in Chars : q' = Append(q, c) /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, q>>
One1 == /\ NormalizeGood(p, Normalize(p))
        /\ Normal(p) => Normalize(p) = p
        /\ Normalize(Normalize(p)) = Normalize(p)
        /\ Absolute(Normalize(p)) = Absolute(p)
        /\ Absolute(p) => Location(p).ups = 0
Two2 == /\ Location(p) = Location(q) => Normalize(p) = Normalize(q)
        /\ Below(p, q) /\ Below(q, p) => Location(p) = Location(q)
        /\ \* below, and not climbing: the remainder names the rest
           Below(p, q) => \E r \in {Joined(SubSeq(Steps(q), Len(Steps(p)) + 1, Len(Steps(q))))} :
                             RelativizeGood(p, q, TRUE, r)
        /\ (Absolute(p) /\ ~Climbs(p) /\ ~Climbs(q) /\ ~Below(p, q)) => \A r \in {<<>>, p, q} : ~RelativizeGood(p, q, TRUE, r)
=============================================================================
