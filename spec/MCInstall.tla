----------------------------- MODULE MCInstall -----------------------------
(* Install for a source of Length blocks, and all kinds of destinations.     *)
EXTENDS Naturals, Sequences
CONSTANTS Length, Wrong
VARIABLES pc, disk, dest, at, held, status, first
Src == [i \in 1..Length |-> i]
Junk(n) == [i \in 1..n |-> 0]
I == INSTANCE Install WITH Source <- Src, Priors <- {Junk(n) : n \in 0..Length + 2} \cup {SubSeq(Src, 1, n) : n \in 1..Length} \cup {Append(Src, 0)}
ISpec == I!ISpec
Complete == I!Complete
Unmodified == I!Unmodified
=============================================================================
