------------------------------- MODULE MCLog -------------------------------
(* Log for few messages; and lists of names of up to MaxLen characters.      *)
EXTENDS Naturals, Sequences
CONSTANTS Messages, Forks, Wrong, Chars, MaxLen
VARIABLES procs, log, reader, cleaned
L == INSTANCE Log
LSpec == L!LSpec
Once == L!Once
Ordered == L!Ordered
None == L!None
Cleans == L!Cleans
Judged == L!Judged
\* Lists: each of the four is a list of its own.
Lists == UNION {[1..n -> Chars] : n \in 0..MaxLen}
ListInit == procs \in Lists /\ log = 0 /\ reader = 0 /\ cleaned = 0
ListSpec == ListInit /\ [][UNCHANGED <<procs, log, reader, cleaned>>]_procs
Name == <<77, 97>>
Has(n) == L!Uppers(n) \in L!Names(procs)
\* Separators, blanks and case make no difference, and names only count as a whole.
Alike == /\ L!Names(<<32>> \o procs) = L!Names(procs) /\ L!Names(procs \o <<9>>) = L!Names(procs)
         /\ L!Names(L!Uppers(procs)) = L!Names(procs)
         /\ L!Names([i \in DOMAIN procs |-> IF procs[i] = 44 THEN 59 ELSE procs[i]]) = L!Names(procs)
Joined == \A s \in {44, 59} : L!Selected(procs \o <<s>> \o Name, Name) /\ L!Selected(Name \o <<s>> \o procs, Name) /\ L!Selected(<<97, 108, 76, s>> \o procs, Name)
Parts == L!Selected(procs, Name) <=> \/ Has(<<97, 108, 108>>) \/ Has(Name)
Alone == (\A i \in DOMAIN procs : ~L!Separator(procs[i])) => (L!Selected(procs, Name) <=> L!Uppers(L!Trimmed(procs)) \in {L!Uppers(Name), L!All})
=============================================================================
