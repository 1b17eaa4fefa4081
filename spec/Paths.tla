------------------------------- MODULE Paths -------------------------------
(* C16: what paths (sequences of byte values) name, lexically.               *)
EXTENDS Naturals, Sequences, FiniteSets
Sep == 47
Dot == 46
One == <<Dot>>
Two == <<Dot, Dot>>

Absolute(p) == Len(p) > 0 /\ p[1] = Sep

\* The components of a path: what is between separators.
RECURSIVE CompsFrom(_, _, _)
CompsFrom(p, i, cur) ==
  LET out == IF cur = <<>> THEN <<>> ELSE <<cur>> IN
  IF i > Len(p) THEN out
  ELSE IF p[i] = Sep THEN out \o CompsFrom(p, i + 1, <<>>)
  ELSE CompsFrom(p, i + 1, Append(cur, p[i]))
Comps(p) == CompsFrom(p, 1, <<>>)

\* The location a path names: names below the root, or below the `ups`-th
\* parent of the current directory.
RECURSIVE Walk(_, _)
Walk(cs, at) ==
  IF cs = <<>> THEN at
  ELSE Walk(Tail(cs),
            IF Head(cs) = One THEN at
            ELSE IF Head(cs) # Two THEN [at EXCEPT !.names = Append(@, Head(cs))]
            ELSE IF at.names # <<>> THEN [at EXCEPT !.names = SubSeq(@, 1, Len(@) - 1)]
            ELSE IF at.abs THEN at
            ELSE [at EXCEPT !.ups = @ + 1])
Location(p) == Walk(Comps(p), [abs |-> Absolute(p), ups |-> 0, names |-> <<>>])

\* A path without anything redundant.
Normal(p) ==
  /\ \A i \in 1..(Len(p) - 1) : ~(p[i] = Sep /\ p[i + 1] = Sep)
  /\ Len(p) > 1 => p[Len(p)] # Sep
  /\ LET cs == Comps(p) IN
       /\ \A i \in DOMAIN cs : cs[i] # One
       /\ \A i \in DOMAIN cs : cs[i] = Two => ~Absolute(p) /\ \A j \in 1..i : cs[j] = Two

\* The normal path of a location.
RECURSIVE Joined(_)
Joined(cs) == IF cs = <<>> THEN <<>> ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o <<Sep>> \o Joined(Tail(cs))
Canonical(l) == (IF l.abs THEN <<Sep>> ELSE <<>>) \o Joined([i \in 1..l.ups |-> Two] \o l.names)
Normalize(p) == Canonical(Location(p))

\* Components that matter.
Steps(p) == SelectSeq(Comps(p), LAMBDA c : c # One)
Climbs(p) == \E i \in DOMAIN Steps(p) : Steps(p)[i] = Two
Below(parent, path) ==
  LET a == Steps(parent) b == Steps(path)
  IN Absolute(parent) = Absolute(path) /\ Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* What is expected of the functions.
NormalizeGood(p, q) == Normal(q) /\ Location(q) = Location(p)
\* (absolute parents, as base directories are; of paths with '..' only that
\* a result, if there is one, is right)
RelativizeGood(parent, path, ok, r) ==
  IF ~Absolute(parent) THEN TRUE
  ELSE /\ ok => ~Absolute(r) /\ Location(parent \o <<Sep>> \o r) = Location(path)
       /\ (~Climbs(parent) /\ ~Climbs(path)) =>
             /\ ok = Below(parent, path)
             /\ ok => Steps(parent) \o Steps(r) = Steps(path)
Last(s) == s[Len(s)]
\* The last component (of a path that has any).
BasenameGood(p, q) == IF p = <<>> THEN q = One ELSE IF Comps(p) = <<>> THEN q = <<Sep>> ELSE q = Last(Comps(p))
\* What is before it (of a path that does not end in a separator), such that
\* both together are the path again.
ParentGood(p, q) ==
  IF p = <<>> \/ Last(p) = Sep THEN TRUE
  ELSE /\ Absolute(q) = Absolute(p)
       /\ Comps(q) = SubSeq(Comps(p), 1, Len(Comps(p)) - 1)
       /\ Len(q) > 1 => Last(q) # Sep
=============================================================================
