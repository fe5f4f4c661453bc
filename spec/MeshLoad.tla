------------------------------ MODULE MeshLoad ------------------------------
(* Loading of mesh files (M01, M02, M03).                                      *)
(* A file is a record: xyz (points), and                                       *)
(*   vtk3: cells = << <<vtk type, vertices...>>, ... >>                        *)
(*   vtk2: cells = << <<vtk type, vertices...>>, ... >>                        *)
(*   fpma: faces = vertex cycles, cells = lists of faces.                      *)
(* Describes(kind, file, m) is the relation "m is the mesh of the file";       *)
(* LoadXXX are canonical loading algorithms (fold over the cells) which the    *)
(* design model checks against the relation for every small file.              *)
EXTENDS MeshBase, TLC

\* ---- the solids of VTK: face cycles by position of the vertex (1-based) -------
SolidFaces(t) ==
    CASE t = 10 -> << <<1,2,3>>, <<1,2,4>>, <<2,3,4>>, <<3,1,4>> >>
      [] t = 12 -> << <<1,2,3,4>>, <<1,2,6,5>>, <<2,3,7,6>>, <<3,4,8,7>>, <<4,1,5,8>>, <<5,6,7,8>> >>
      [] t = 13 -> << <<1,2,3>>, <<1,2,5,4>>, <<2,3,6,5>>, <<3,1,4,6>>, <<4,5,6>> >>
      [] t = 14 -> << <<1,2,3,4>>, <<1,2,5>>, <<2,3,5>>, <<3,4,5>>, <<4,1,5>> >>
SolidSize(t) == CASE t = 10 -> 4 [] t = 12 -> 8 [] t = 13 -> 6 [] t = 14 -> 5
\* element types of the library
TypeOf(kind, t) == IF kind = "vtk2" THEN (CASE t = 5 -> 200 [] t = 9 -> 201 [] t = 7 -> 202)
                   ELSE CASE t = 10 -> 300 [] t = 12 -> 301 [] t = 13 -> 302 [] t = 14 -> 303

\* face cycles of cell k of a vtk3 file
FaceCycles(cell) == LET fs == SolidFaces(cell[1]) IN
    [q \in 1..Len(fs) |-> [p \in 1..Len(fs[q]) |-> cell[fs[q][p] + 1]]]
Verts(cell) == SubSeq(cell, 2, Len(cell))

\* ---- the relation --------------------------------------------------------------
EdgeSets(m) == [k \in DOMAIN m.e |-> Range(m.e[k])]
\* unordered vertex pairs of the edges of face f
FacePairs(m, f) == {Range(At(m.e, x)) : x \in Range(At(m.s[1], f))}

EdgesAre(m, pairs) == /\ Range(EdgeSets(m)) = pairs
                      /\ Len(m.e) = Cardinality(pairs)
                      /\ \A k \in DOMAIN m.e : Cardinality(Range(m.e[k])) = 2

\* first and second entry of an increasing selection of owners, -1 if missing
Owners(n, own(_, _), f) == SelectSeq([c \in 1..n |-> c - 1], LAMBDA c : own(c, f))
AdjOK(m, n, own(_, _)) ==
    \A f \in Idx(m.l) : LET o == Owners(n, own, f) IN
        /\ Len(o) \in {1, 2} \/ (Len(o) = 0 /\ n = 0)
        /\ At(m.l, f) = o[1]
        /\ At(m.r, f) = IF Len(o) > 1 THEN o[2] ELSE -1

DescribesFpma(file, m) ==
    /\ m.dim = 3 /\ m.idx /\ m.bc = <<>>
    /\ m.v = file.xyz
    /\ Len(m.cb) = Len(file.cells)
    /\ Len(m.s[1]) = Len(file.faces)
    /\ ShapeOK(m)
    /\ EdgesAre(m, UNION {CycSet(file.faces[k]) : k \in DOMAIN file.faces})
    /\ \A k \in DOMAIN file.faces : /\ NoDup(m.s[1][k])
                                    /\ Len(m.s[1][k]) = Len(file.faces[k])
                                    /\ FacePairs(m, k - 1) = CycSet(file.faces[k])
    /\ \A f \in Idx(m.l) : LET o == SelectSeq([c \in 1..Len(file.cells) |-> c - 1], LAMBDA c : f \in Range(At(file.cells, c))) IN
          /\ At(m.l, f) = IF Len(o) > 0 THEN o[1] ELSE -1
          /\ At(m.r, f) = IF Len(o) > 1 THEN o[2] ELSE -1
    /\ \A c \in Idx(m.cb) : Walk(m, c) = At(file.cells, c)

DescribesVtk3(file, m) ==
    LET n == Len(file.cells)
        cyc == TLCEval([c \in 1..n |-> FaceCycles(file.cells[c])])
        fsets == TLCEval([c \in 1..n |-> {CycSet(cyc[c][q]) : q \in DOMAIN cyc[c]}])
        all == TLCEval(UNION Range(fsets))
    IN /\ m.dim = 3 /\ m.idx /\ m.bc = <<>>
       /\ m.v = file.xyz
       /\ Len(m.cb) = n
       /\ ShapeOK(m)
       /\ EdgesAre(m, UNION all)
       /\ \A f \in Idx(m.s[1]) : NoDup(At(m.s[1], f)) /\ Len(At(m.s[1], f)) = Cardinality(FacePairs(m, f))
       /\ LET mine == TLCEval([f \in Idx(m.s[1]) |-> FacePairs(m, f)]) IN
          /\ {mine[f] : f \in Idx(m.s[1])} = all
          /\ Len(m.s[1]) = Cardinality(all)
          /\ \A f \in Idx(m.l) : LET o == SelectSeq([c \in 1..n |-> c - 1], LAMBDA c : mine[f] \in At(fsets, c)) IN
                 /\ At(m.l, f) = o[1]
                 /\ At(m.r, f) = IF Len(o) > 1 THEN o[2] ELSE -1
          /\ \A c \in Idx(m.cb) : LET w == Walk(m, c) IN
                 /\ w # <<-1>> /\ NoDup(w)
                 /\ Len(w) = Cardinality(At(fsets, c))
                 /\ {mine[f] : f \in Range(w)} = At(fsets, c)

DescribesVtk2(file, m) ==
    LET n == Len(file.cells)
        cyc == TLCEval([c \in 1..n |-> Verts(file.cells[c])])
        sets == TLCEval([c \in 1..n |-> CycSet(cyc[c])])
        es == TLCEval(EdgeSets(m))
    IN /\ m.dim = 2 /\ m.idx /\ m.bc = <<>>
       /\ m.v = file.xyz
       /\ Len(m.cb) = n
       /\ ShapeOK(m)
       /\ EdgesAre(m, UNION Range(sets))
       /\ \A f \in Idx(m.e) : LET o == SelectSeq([c \in 1..n |-> c - 1], LAMBDA c : At(es, f) \in At(sets, c)) IN
              /\ At(m.l, f) = o[1]
              /\ At(m.r, f) = IF Len(o) > 1 THEN o[2] ELSE -1
              \* oriented as the first cell lists it
              /\ LET c == At(cyc, o[1]) IN
                 \E k \in DOMAIN c : <<c[k], c[(k % Len(c)) + 1]>> = At(m.e, f)
       /\ \A c \in Idx(m.cb) : LET w == Walk(m, c) IN
              /\ w # <<-1>>
              /\ [k \in DOMAIN w |-> At(es, w[k])] = CycPairs(At(cyc, c))

Describes(kind, file, m) == CASE kind = "fpma" -> DescribesFpma(file, m)
                              [] kind = "vtk3" -> DescribesVtk3(file, m)
                              [] kind = "vtk2" -> DescribesVtk2(file, m)

TypesOf(kind, file) == [c \in DOMAIN file.cells |->
    IF kind = "fpma" THEN 305 ELSE TypeOf(kind, file.cells[c][1])]

\* ---- canonical loading ----------------------------------------------------------
FindPair(e, p) == IF \E k \in DOMAIN e : Range(e[k]) = p
                  THEN (CHOOSE k \in DOMAIN e : Range(e[k]) = p) - 1 ELSE -1
AddEdge(m, a, b) == IF FindPair(m.e, {a, b}) = -1 THEN [m EXCEPT !.e = Append(@, <<a, b>>)] ELSE m
AddEdges(m, c) == FoldTo(LAMBDA acc, k : AddEdge(acc, c[k], c[(k % Len(c)) + 1]), m, Len(c))
CycEdges(m, c) == [k \in 1..Len(c) |-> FindPair(m.e, {c[k], c[(k % Len(c)) + 1]})]

Grow(m) == [m EXCEPT !.l = Append(@, -1), !.r = Append(@, -1), !.nl = Append(@, -1), !.nr = Append(@, -1)]

\* the face f gets cell c on a free side and its successor nx
Link(m, f, c, nx) ==
    IF At(m.l, f) = -1 \/ At(m.l, f) = c
    THEN [m EXCEPT !.l[f + 1] = c, !.nl[f + 1] = nx]
    ELSE [m EXCEPT !.r[f + 1] = c, !.nr[f + 1] = nx]
LinkCell(m, c, fs) ==
    [FoldTo(LAMBDA acc, k : Link(acc, fs[k], c, fs[(k % Len(fs)) + 1]), m, Len(fs))
        EXCEPT !.cb = Append(@, fs[1])]

\* fpma
LoadFace(m, cyc) == LET m1 == TLCEval(AddEdges(m, cyc)) IN
    Grow([m1 EXCEPT !.s[1] = Append(@, TLCEval(CycEdges(m1, cyc)))])
LoadFpma(file) ==
    LET m0 == [EmptyMesh(3) EXCEPT !.v = file.xyz]
        m1 == TLCEval(FoldTo(LAMBDA acc, k : LoadFace(acc, file.faces[k]), m0, Len(file.faces)))
    IN FoldTo(LAMBDA acc, k : TLCEval(LinkCell(acc, k - 1, file.cells[k])), m1, Len(file.cells))

\* vtk3: a face is found by its set of edges
FaceByEdges(m, es) == IF \E k \in DOMAIN m.s[1] : Range(m.s[1][k]) = es
                      THEN (CHOOSE k \in DOMAIN m.s[1] : Range(m.s[1][k]) = es) - 1 ELSE -1
AddSolidFace(m, cyc) == LET m1 == TLCEval(AddEdges(m, cyc))
                            es == TLCEval(CycEdges(m1, cyc))
                        IN IF FaceByEdges(m1, Range(es)) = -1
                           THEN Grow([m1 EXCEPT !.s[1] = Append(@, es)]) ELSE m1
LoadSolid(m, k, cell) ==
    LET cyc == TLCEval(FaceCycles(cell))
        m1 == TLCEval(FoldTo(LAMBDA acc, q : AddSolidFace(acc, cyc[q]), m, Len(cyc)))
        fs == TLCEval([q \in DOMAIN cyc |-> FaceByEdges(m1, Range(CycEdges(m1, cyc[q])))])
    IN LinkCell(m1, k - 1, fs)
LoadVtk3(file) == FoldTo(LAMBDA acc, k : LoadSolid(acc, k, file.cells[k]),
                         [EmptyMesh(3) EXCEPT !.v = file.xyz], Len(file.cells))

\* vtk2: edges are the faces
AddEdge2(m, a, b) == IF FindPair(m.e, {a, b}) = -1 THEN Grow([m EXCEPT !.e = Append(@, <<a, b>>)]) ELSE m
LoadPolygon(m, k, cell) ==
    LET c == Verts(cell)
        m1 == TLCEval(FoldTo(LAMBDA acc, q : AddEdge2(acc, c[q], c[(q % Len(c)) + 1]), m, Len(c)))
    IN LinkCell(m1, k - 1, CycEdges(m1, c))
LoadVtk2(file) == FoldTo(LAMBDA acc, k : LoadPolygon(acc, k, file.cells[k]),
                         [EmptyMesh(2) EXCEPT !.v = file.xyz], Len(file.cells))
Load(kind, file) == CASE kind = "fpma" -> LoadFpma(file) [] kind = "vtk3" -> LoadVtk3(file) [] kind = "vtk2" -> LoadVtk2(file)
=============================================================================
