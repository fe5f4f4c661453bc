------------------------------ MODULE CapTrace ------------------------------
(* One input in several storage configurations; the first record of each      *)
(* trace uses dynamic storage only.                                           *)
EXTENDS TraceBase, MeshLoad
VARIABLE ref     \* battery and mesh of the dynamic configuration
\* the length of the longest list of bounding elements of dimension d elements in the input
Longest(q) == FoldLeft(LAMBDA a, x : IF Len(x) > a THEN Len(x) ELSE a, 0, q)
Need(r, d) == IF r.kind = "raw" THEN Longest(r.raw.s[d - 1])
              ELSE IF r.kind = "fpma" THEN Longest(r.file.faces)
              ELSE Longest(FoldTo(LAMBDA acc, k : acc \o FaceCycles(r.file.cells[k]), <<>>, Len(r.file.cells)))
\* r.caps : pairs <<dimension, capacity>>
Fits(r) == \A k \in DOMAIN r.caps : r.caps[k][2] = 0 \/ Need(r, r.caps[k][1]) <= r.caps[k][2]
Right(r) == IF r.kind = "raw" THEN r.m = r.raw ELSE Describes(r.kind, r.file, r.m)
TraceInit == i = 1 /\ ref = [m |-> 0, battery |-> <<>>]
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] dyn == \A k \in DOMAIN r.caps : r.caps[k][2] = 0 IN
       /\ Expect(r.err = (IF Fits(r) THEN 0 ELSE 1), "refused exactly if the capacity does not suffice")
       /\ IF r.err = 1 THEN ref' = ref
          ELSE IF dyn THEN Expect(Right(r), "the mesh of the input") /\ ref' = [m |-> r.m, battery |-> r.battery]
          ELSE /\ Expect(r.m = ref.m, "the same mesh as with dynamic storage")
               /\ Expect(r.battery = ref.battery, "the same results as with dynamic storage")
               /\ ref' = ref
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, ref>>
=============================================================================
