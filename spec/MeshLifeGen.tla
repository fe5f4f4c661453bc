---------------------------- MODULE MeshLifeGen ----------------------------
(* All histories (up to MaxLen calls) of a mesh object over a few files; the  *)
(* mesh is computed by the canonical loaders.                                 *)
EXTENDS MeshLife, TLC, Json
CONSTANTS Dim, MaxLen, Ops     \* Ops: subset of {"load0","load1","load2","clear","bnd","bndc","mark","edit","missing","bad"}

Pts(n) == TLCEval([k \in 1..n |-> <<k>>])
\* three different files per dimension
FileOf(k) ==
    IF Dim = 2 THEN
      (CASE k = 0 -> [xyz |-> Pts(3), cells |-> << <<5, 0, 1, 2>> >>]
         [] k = 1 -> [xyz |-> Pts(4), cells |-> << <<5, 0, 1, 2>>, <<5, 1, 2, 3>> >>]
         [] k = 2 -> [xyz |-> Pts(5), cells |-> << <<9, 0, 1, 2, 3>>, <<5, 2, 3, 4>> >>])
    ELSE
      (CASE k = 0 -> [xyz |-> Pts(4), cells |-> << <<10, 0, 1, 2, 3>> >>]
         [] k = 1 -> [xyz |-> Pts(5), cells |-> << <<10, 0, 1, 2, 3>>, <<10, 4, 1, 2, 3>> >>]
         [] k = 2 -> [xyz |-> Pts(6), cells |-> << <<14, 0, 1, 2, 3, 4>>, <<14, 0, 1, 2, 3, 5>> >>])
KindOf == IF Dim = 2 THEN "vtk2" ELSE "vtk3"

VARIABLES m, hist, dirty
vars == <<m, hist, dirty>>
Init == m = EmptyMesh(Dim) /\ hist = <<>> /\ dirty = FALSE
LoadIdx(op) == CASE op = "load0" -> 0 [] op = "load1" -> 1 [] op = "load2" -> 2
Apply(op) ==
    /\ m' = CASE op \in {"load0", "load1", "load2"} -> TLCEval(Load(KindOf, FileOf(LoadIdx(op))))
              [] op = "clear" -> EmptyMesh(Dim)
              [] op = "bnd" -> TLCEval(SetupBoundary(m))
              [] OTHER -> m
    /\ dirty' = (op \in {"edit", "bad"} \/ (dirty /\ op \notin {"load0", "load1", "load2", "clear"}))
    /\ hist' = Append(hist, op)
\* an edited (inconsistent) mesh is only loaded over or cleared
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : /\ dirty => op \in {"load0", "load1", "load2", "clear", "bad"}
                           /\ Apply(op)
Spec == Init /\ [][Next]_vars

LastLoadWins == (hist # <<>> /\ hist[Len(hist)] \in {"load0", "load1", "load2"}) =>
    LET f == FileOf(LoadIdx(hist[Len(hist)])) IN Describes(KindOf, f, m) /\ m = Load(KindOf, f)
SetupOK == LET n == SetupBoundary(m) IN
    /\ BoundarySetUp(m, n) /\ Closed(n) /\ BoundarySetUp(n, n) /\ SetupBoundary(n) = n
    \* the relation is not vacuous
    /\ (\E sd \in Sides(m) : SideOf(m, sd) = -1) => ~BoundarySetUp(m, m)
    /\ n.bc # <<>> => ~BoundarySetUp(m, [n EXCEPT !.bc[1] = <<n.bc[1][1], n.bc[1][2] + 1>>])
EmitOK == Len(hist) < MaxLen \/ PrintT(ToJson(hist))
=============================================================================
