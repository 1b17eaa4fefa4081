------------------------------ MODULE Install ------------------------------
(* C17: installing the running executable to a file.                         *)
(*                                                                           *)
(* What may come of it.  o: [prior: what the destination was;  source: the   *)
(* running executable's place;  faults: whether system calls were made to    *)
(* fail, to be interrupted, or to transfer only a part;  status;  same: the  *)
(* destination's content is that of the executable;  created: the            *)
(* destination is a new file;  exec: it is executable by its owner;          *)
(* intact: the executable is what it was]                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Possible == {"absent", "shorter", "longer", "equal", "empty", "linked", "itself", "tolink", "tofile", "dangling", "elsewhere", "elsewherelonger"}
Impossible == {"dir", "missing", "forbidden", "readonly", "full", "throughfile"}
Allowed(o) ==
  /\ o.intact
  /\ o.status = 0 => o.same /\ (o.created => o.exec) /\ o.prior \notin Impossible
  /\ o.prior \in Possible /\ o.source # "deleted" /\ ~o.faults => o.status = 0

-----------------------------------------------------------------------------
(* The installation, step by step, with a failure possible at each.          *)
(* A file's content is a sequence of blocks; inode 1 is the executable;      *)
(* inode 0 is none.  Wrong: ways in which it would be wrong.                 *)
CONSTANTS Source, Priors, Wrong
VARIABLES pc, disk, dest, at, held, status, first
vars == <<pc, disk, dest, at, held, status, first>>
\* dest: the inode the destination's name stands for
IInit == /\ pc = "link" /\ at = 0 /\ held = <<>> /\ status = 99
         /\ \/ disk = (1 :> Source) /\ dest \in {0, 1}            \* nothing; the executable itself
            \/ \E p \in Priors : disk = (1 :> Source) @@ (2 :> p) /\ dest = 2
         /\ first = dest
End(s) == pc' = "end" /\ status' = s
Link == /\ pc = "link" /\ UNCHANGED <<disk, at, held, first>>
        /\ \/ dest = 0 /\ dest' = 1 /\ End(0)
           \/ pc' = "open" /\ UNCHANGED <<dest, status>>           \* it exists, or cannot be linked to
OpenSource == /\ pc = "open" /\ UNCHANGED <<disk, dest, at, held, first>>
              /\ \/ pc' = "compare" /\ UNCHANGED status
                 \/ End(1)
Compare == /\ pc = "compare" /\ UNCHANGED <<disk, dest, at, held, first>>
           /\ IF dest = 1 /\ "compare" \notin Wrong THEN End(0) ELSE pc' = "create" /\ UNCHANGED status
Create == /\ pc = "create" /\ UNCHANGED <<at, held, first>>
          /\ \/ End(1) /\ UNCHANGED <<disk, dest>>
             \/ /\ pc' = "read" /\ UNCHANGED status
                /\ IF dest = 0 THEN dest' = 2 /\ disk' = (2 :> <<>>) @@ disk
                   ELSE UNCHANGED dest /\ disk' = IF "truncate" \in Wrong THEN disk ELSE [disk EXCEPT ![dest] = <<>>]
Rest == SubSeq(disk[1], at + 1, Len(disk[1]))
ReadSome == /\ pc = "read" /\ UNCHANGED <<disk, dest, first>>
            /\ \/ Rest = <<>> /\ End(0) /\ UNCHANGED <<at, held>>
               \/ \E n \in 1..Len(Rest) : held' = SubSeq(Rest, 1, n) /\ pc' = "write" /\ UNCHANGED <<at, status>>
               \/ End(IF "read" \in Wrong THEN 0 ELSE 1) /\ UNCHANGED <<at, held>>             \* it fails
               \/ UNCHANGED <<pc, at, held, status>>                                            \* it is interrupted
Put(c, from, s) == SubSeq(c, 1, from) \o s \o SubSeq(c, from + Len(s) + 1, Len(c))
WriteSome == /\ pc = "write" /\ UNCHANGED <<dest, first>>
             /\ \/ /\ disk' = [disk EXCEPT ![dest] = Put(@, at, held)] /\ at' = at + Len(held) /\ held' = <<>> /\ pc' = "read" /\ UNCHANGED status
                \/ /\ \E n \in 0..Len(held) - 1 : disk' = [disk EXCEPT ![dest] = Put(@, at, SubSeq(held, 1, n))]    \* only a part
                   /\ at' = at + Len(held) /\ held' = <<>>
                   /\ IF "short" \in Wrong THEN pc' = "read" /\ UNCHANGED status ELSE End(1)
                \/ End(IF "write" \in Wrong THEN 0 ELSE 1) /\ UNCHANGED <<disk, at, held>>
                \/ UNCHANGED <<pc, disk, at, held, status>>
INext == Link \/ OpenSource \/ Compare \/ Create \/ ReadSome \/ WriteSome
ISpec == IInit /\ [][INext]_vars
Complete == pc = "end" /\ status = 0 => dest # 0 /\ disk[dest] = Source
Unmodified == disk[1] = Source
=============================================================================
