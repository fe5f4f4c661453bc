----------------------------- MODULE MeshDataMC -----------------------------
(* The writing of a column as a transition system: the writer walks over the  *)
(* mapping of the tessellated cells (exported cell -> mesh cell, ascending)   *)
(* and writes the values of the cells between them on the way. For every      *)
(* pattern of native cells (0) and cells written in p pieces the written      *)
(* owners have to be a growing prefix of the owners of the exported cells.    *)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt
CONSTANTS MaxCells, MaxPieces, Check
VARIABLES pat, key, real, loc, out, pc
vars == <<pat, key, real, loc, out, pc>>

Size(p) == IF p = 0 THEN 1 ELSE p
Owners == FoldLeft(LAMBDA acc, k : acc \o [q \in 1..Size(pat[k]) |-> k - 1], <<>>, [k \in 1..Len(pat) |-> k])
Start(k) == FoldLeft(LAMBDA acc, j : acc + Size(pat[j]), 0, [j \in 1..(k - 1) |-> j])
Mapping == FoldLeft(LAMBDA acc, k : IF pat[k] = 0 THEN acc ELSE acc \o [q \in 1..pat[k] |-> <<Start(k) + q - 1, k - 1>>], <<>>, [k \in 1..Len(pat) |-> k])

Patterns == UNION {[1..n -> 0..MaxPieces] : n \in 1..MaxCells}
Init == pat \in Patterns /\ key = 1 /\ real = 0 /\ loc = 0 /\ out = <<>> /\ pc = "keys"
\* one cell before the next tessellated one
Between == pc = "keys" /\ key <= Len(Mapping) /\ loc < Mapping[key][1]
           /\ out' = Append(out, real) /\ real' = real + 1 /\ loc' = loc + 1 /\ UNCHANGED <<pat, key, pc>>
\* one piece
Piece == pc = "keys" /\ key <= Len(Mapping) /\ loc >= Mapping[key][1]
         /\ LET c == Mapping[key][2] IN
            /\ out' = Append(out, c) /\ loc' = loc + 1 /\ key' = key + 1
            /\ real' = IF ~Check \/ (key < Len(Mapping) /\ Mapping[key + 1][2] = c) THEN c ELSE c + 1
         /\ UNCHANGED <<pat, pc>>
Rest == pc = "keys" /\ key > Len(Mapping) /\ pc' = "rest" /\ UNCHANGED <<pat, key, real, loc, out>>
Ending == pc = "rest" /\ real < Len(pat) /\ out' = Append(out, real) /\ real' = real + 1 /\ UNCHANGED <<pat, key, loc, pc>>
Done == pc = "rest" /\ real >= Len(pat) /\ pc' = "done" /\ UNCHANGED <<pat, key, real, loc, out>>
Next == Between \/ Piece \/ Rest \/ Ending \/ Done
Spec == Init /\ [][Next]_vars

Prefix == Len(out) <= Len(Owners) /\ out = SubSeq(Owners, 1, Len(out))
Complete == pc = "done" => out = Owners
\* the patterns to be replayed
Emit == pc = "done" => PrintT(ToJson(pat))
=============================================================================
