------------------------------ MODULE MeshLife ------------------------------
(* The life of a mesh object: loads, boundary set-up, edits, clearing          *)
(* (M04, M06). The state is the abstract mesh.                                 *)
EXTENDS MeshLoad

BIdx(k) == -(2 + k)              \* the image of boundary index k
BNum(x) == -2 - x
Sides(m) == {<<f, 0>> : f \in Idx(m.l)} \cup {<<f, 1>> : f \in Idx(m.l)}
SideOf(m, sd) == IF sd[2] = 0 THEN At(m.l, sd[1]) ELSE At(m.r, sd[1])

\* boundary set-up: every free side gets a boundary cell of its own, nothing else changes
BoundarySetUp(old, new) ==
    LET free == {sd \in Sides(old) : SideOf(old, sd) = -1}
        n0 == Len(old.bc)
    IN /\ new.v = old.v /\ new.e = old.e /\ new.s = old.s /\ new.nl = old.nl /\ new.nr = old.nr
       /\ new.cb = old.cb /\ new.idx = old.idx /\ new.dim = old.dim
       /\ Len(new.l) = Len(old.l) /\ Len(new.r) = Len(old.r)
       /\ \A sd \in Sides(old) \ free : SideOf(new, sd) = SideOf(old, sd)
       /\ Len(new.bc) = n0 + Cardinality(free)
       /\ SubSeq(new.bc, 1, n0) = old.bc
       /\ {SideOf(new, sd) : sd \in free} = {BIdx(k) : k \in n0..(n0 + Cardinality(free) - 1)}
       /\ \A sd \in free : LET x == SideOf(new, sd) IN At(new.bc, BNum(x)) = <<x, sd[1]>>

\* canonical set-up
AddB(m, sd) == IF SideOf(m, sd) # -1 THEN m
    ELSE LET x == BIdx(Len(m.bc)) m1 == [m EXCEPT !.bc = Append(@, <<x, sd[1]>>)] IN
         IF sd[2] = 0 THEN [m1 EXCEPT !.l[sd[1] + 1] = x] ELSE [m1 EXCEPT !.r[sd[1] + 1] = x]
SetupBoundary(m) == FoldTo(LAMBDA acc, k : AddB(AddB(acc, <<k - 1, 0>>), <<k - 1, 1>>), m, Len(m.l))

\* a mesh is closed when no side is free
Closed(m) == \A sd \in Sides(m) : SideOf(m, sd) # -1
=============================================================================
