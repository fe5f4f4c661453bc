----------------------------- MODULE MeshWrite -----------------------------
(* Writing of meshes (M11, M12, M13): the relation between a mesh, the types  *)
(* of its cells and the content of the written file, and the preservation of  *)
(* a mesh by writing and loading.                                             *)
(* geo: fc, cc = centres of the faces and cells. out: v = coordinates of the  *)
(* first points, far = the coordinates of the points added after them, cells, *)
(* ct (vtk types), map (<<exported cell, mesh cell>>); fpma: v, faces, cells. *)
EXTENDS MeshLoad

Native(t) == t \in {300, 301, 302, 303}
VtkType3(t) == CASE t = 300 -> 10 [] t = 301 -> 12 [] t = 302 -> 13 [] t = 303 -> 14
VtkType2(t) == CASE t = 200 -> 5 [] t = 201 -> 9 [] t = 202 -> 7
EdgesOfFace(m, f) == Range(At(m.s[1], f))

\* the parts of a tessellated cell: one for each edge of each its face
Pieces(m, c) == UNION {{<<f, x>> : x \in EdgesOfFace(m, f)} : f \in Range(Walk(m, c))}
Exported(m, types, c) == IF Native(At(types, c)) THEN 1 ELSE Cardinality(Pieces(m, c))
\* first exported cell of each mesh cell (and the total as the last entry)
Starts(m, types) == FoldTo(LAMBDA acc, k : Append(acc, acc[k] + Exported(m, types, k - 1)), <<0>>, Len(m.cb))

\* ---- orientation of the solids ---------------------------------------------------
Sub3(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
\* the corner of the first vertex spanned by its neighbours is right-handed
Corner(t) == CASE t = 10 -> <<2,3,4>> [] t = 12 -> <<2,4,5>> [] t = 13 -> <<2,3,4>> [] t = 14 -> <<2,4,5>>
RightHanded(v, cell) == LET q == Corner(cell[1]) P(k) == v[cell[k + 1] + 1] IN
    Det3(Sub3(P(q[1]), P(1)), Sub3(P(q[2]), P(1)), Sub3(P(q[3]), P(1))) > 0

\* ---- one cell ----------------------------------------------------------------------
\* cell = <<vtk type, vertices>>
SolidOK(m, c, t, cell, orient) ==
    /\ cell[1] = VtkType3(t)
    /\ Len(cell) = SolidSize(cell[1]) + 1
    /\ NoDup(Verts(cell))
    /\ LET cyc == FaceCycles(cell) IN
       /\ {CycSet(cyc[k]) : k \in DOMAIN cyc} = {FacePairs(m, f) : f \in Range(Walk(m, c))}
       /\ Len(cyc) = Len(Walk(m, c))
    /\ orient => RightHanded(m.v, cell)

Near(p, q) == \A k \in DOMAIN p : p[k] - q[k] \in -2..2
\* tetra (vertices of an exported piece) is the part of cell c on edge x of face f
IsPiece(m, geo, out, c, f, x, tetra) ==
    LET n == Len(m.v)
        pts == {k \in Range(tetra) : k < n}
        far == Range(tetra) \ pts IN
    /\ pts = Range(At(m.e, x))
    /\ Cardinality(far) = 2
    /\ \E a \in far : \E b \in far \ {a} : /\ a - n < Len(out.far) /\ b - n < Len(out.far)
                                          /\ Near(At(out.far, a - n), At(geo.fc, f))
                                          /\ Near(At(out.far, b - n), At(geo.cc, c))

\* ---- whole files ---------------------------------------------------------------------
Vtk3OK(m, geo, types, out, orient) ==
    LET n == Len(m.v)
        st == TLCEval(Starts(m, types))
        total == st[Len(st)]
        Seg(c) == SubSeq(out.cells, At(st, c) + 1, At(st, c + 1))
        split == {c \in Idx(m.cb) : ~Native(At(types, c))}
        splitFrom == UNION {At(st, c)..(At(st, c + 1) - 1) : c \in split}
    IN /\ out.v = m.v                                                         \* the mesh vertices first
       /\ Len(out.cells) = total                                              \* one native or the pieces
       /\ \A k \in DOMAIN out.cells : \A q \in DOMAIN Verts(out.cells[k]) : Verts(out.cells[k])[q] \in 0..(n + Len(out.far) - 1)
       /\ \A c \in Idx(m.cb) \ split : SolidOK(m, c, At(types, c), Seg(c)[1], orient)
       /\ \A c \in split :
            LET seg == TLCEval(Seg(c)) pc == TLCEval(Pieces(m, c)) IN
            /\ \A k \in DOMAIN seg : seg[k][1] = 10 /\ Len(seg[k]) = 5
            /\ \A p \in pc : Cardinality({k \in DOMAIN seg : IsPiece(m, geo, out, c, p[1], p[2], Verts(seg[k]))}) = 1
       \* every added point is a part of a piece
       /\ \A a \in Idx(out.far) : \E k \in splitFrom : (a + n) \in Range(Verts(At(out.cells, k)))
       \* the mapping names the cell of each piece and nothing else
       /\ Range(out.map) = UNION {{<<k, c>> : k \in At(st, c)..(At(st, c + 1) - 1)} : c \in split}
       /\ Len(out.map) = Cardinality(splitFrom)

Vtk2OK(m, types, out) ==
    /\ out.v = m.v /\ out.far = <<>>
    /\ Len(out.cells) = Len(m.cb)
    /\ \A c \in Idx(m.cb) : LET cell == At(out.cells, c) w == Walk(m, c) IN
         /\ cell[1] = VtkType2(At(types, c))
         /\ NoDup(Verts(cell)) /\ Len(cell) = Len(w) + 1
         /\ CycSet(Verts(cell)) = {Range(At(m.e, f)) : f \in Range(w)}

FpmaOK(m, out) ==
    /\ out.v = m.v
    /\ Len(out.faces) = Len(m.s[1]) /\ Len(out.cells) = Len(m.cb)
    /\ \A f \in Idx(m.s[1]) : LET cyc == At(out.faces, f) IN
         /\ NoDup(cyc) /\ Len(cyc) = Len(At(m.s[1], f)) /\ CycSet(cyc) = FacePairs(m, f)
    /\ \A c \in Idx(m.cb) : /\ NoDup(At(out.cells, c))
                            /\ Range(At(out.cells, c)) = Range(Walk(m, c))

FileOK(m, geo, types, fmt, out, orient) ==
    IF fmt = "fpma" THEN FpmaOK(m, out)
    ELSE IF m.dim = 2 THEN Vtk2OK(m, types, out) ELSE Vtk3OK(m, geo, types, out, orient)

\* ---- preservation by writing and loading ------------------------------------------------
\* a face by the vertices of its edges
Key(m, f) == IF m.dim = 2 THEN {Range(At(m.e, f))} ELSE FacePairs(m, f)
Sides(m, f) == {c \in {At(m.l, f), At(m.r, f)} : c >= 0}
Preserved(m, n) ==
    LET mk == TLCEval([f \in Idx(m.l) |-> Key(m, f)]) nk == TLCEval([f \in Idx(n.l) |-> Key(n, f)]) IN
    /\ n.dim = m.dim /\ n.v = m.v
    /\ WellFormed(n)
    /\ Len(n.cb) = Len(m.cb)
    /\ \A c \in Idx(m.cb) : {nk[f] : f \in Range(Walk(n, c))} = {mk[f] : f \in Range(Walk(m, c))}
    /\ {<<mk[f], Sides(m, f)>> : f \in Idx(m.l)} = {<<nk[f], Sides(n, f)>> : f \in Idx(n.l)}
    /\ Len(n.l) = Len(m.l)
\* what the types become
TypesKept(fmt, types) == IF fmt = "fpma" THEN [k \in DOMAIN types |-> 305] ELSE types
\* a tessellated mesh loads as a mesh of tetrahedra
Tessellated(m, types, n, types2) ==
    LET st == TLCEval(Starts(m, types)) IN
    /\ WellFormed(n) /\ Len(n.v) >= Len(m.v) /\ SubSeq(n.v, 1, Len(m.v)) = m.v
    /\ Len(n.cb) = st[Len(st)]
    /\ \A c \in Idx(m.cb) : \A k \in At(st, c)..(At(st, c + 1) - 1) : At(types2, k) = IF Native(At(types, c)) THEN At(types, c) ELSE 300

\* ---- a canonical writer (for the design model) ---------------------------------------------
CycleOf(m, f) ==   \* vertices of a face in the order of its boundary
    LET pairs == FacePairs(m, f) n == Cardinality(pairs)
        v0 == CHOOSE v \in UNION pairs : TRUE
        Nbrs(v) == {w \in UNION pairs : {v, w} \in pairs}
        Step(acc) == LET c == Nbrs(acc[Len(acc)]) \ Range(acc) IN IF c = {} THEN acc ELSE Append(acc, CHOOSE w \in c : TRUE)
    IN FoldTo(LAMBDA acc, k : TLCEval(Step(acc)), <<v0>>, n - 1)
CellPairs(m, c) == UNION {FacePairs(m, f) : f \in Range(Walk(m, c))}
Base(m, c, t) == CHOOSE f \in Range(Walk(m, c)) : Cardinality(FacePairs(m, f)) = IF t \in {300, 302} THEN 3 ELSE 4
WriteSolid(m, c, t) ==
    LET b == TLCEval(CycleOf(m, Base(m, c, t)))
        prs == TLCEval(CellPairs(m, c))
        rest == (UNION prs) \ Range(b)
        Up(cyc) == IF t \in {300, 303} THEN <<CHOOSE v \in rest : TRUE>>
                   ELSE [k \in DOMAIN cyc |-> CHOOSE v \in rest : {v, cyc[k]} \in prs]
        Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
        one == <<VtkType3(t)>> \o b \o Up(b)
    IN IF RightHanded(m.v, one) THEN one ELSE <<VtkType3(t)>> \o Rev(b) \o Up(Rev(b))
\* centres are told apart by the number of the face or cell only
WGeo(m) == [fc |-> [k \in DOMAIN m.s[1] |-> <<10 * k>>], cc |-> [k \in DOMAIN m.cb |-> <<-10 * k>>]]
WriteVtk3(m, types) ==
    LET n == Len(m.v)
        nf == Len(m.s[1])
        split == [c \in Idx(m.cb) |-> SetToSeq(Pieces(m, c))]
        Cell(c) == IF Native(At(types, c)) THEN <<WriteSolid(m, c, At(types, c))>>
                   ELSE [k \in DOMAIN split[c] |-> <<10>> \o At(m.e, split[c][k][2]) \o <<n + 2 * split[c][k][1] , n + 2 * nf + c>>]
        raw == TLCEval(FoldTo(LAMBDA acc, k : acc \o Cell(k - 1), <<>>, Len(m.cb)))
        st == TLCEval(Starts(m, types))
        used == TLCEval(SetToSeq({x \in UNION {Range(Verts(raw[k])) : k \in DOMAIN raw} : x >= n}))
        g == WGeo(m)
        Pt(x) == IF x >= n + 2 * nf THEN At(g.cc, x - n - 2 * nf) ELSE At(g.fc, (x - n) \div 2)
        Num(x) == IF x < n THEN x ELSE n + (CHOOSE k \in DOMAIN used : used[k] = x) - 1
    IN [v |-> m.v, far |-> [k \in DOMAIN used |-> Pt(used[k])],
        cells |-> [k \in DOMAIN raw |-> <<raw[k][1]>> \o [q \in 1..(Len(raw[k]) - 1) |-> Num(raw[k][q + 1])]],
        map |-> FoldTo(LAMBDA acc, c : IF Native(types[c]) THEN acc ELSE acc \o [k \in 1..(st[c + 1] - st[c]) |-> <<st[c] + k - 1, c - 1>>], <<>>, Len(m.cb))]
WriteVtk2(m, types) ==
    [v |-> m.v, far |-> <<>>,
     cells |-> [c \in DOMAIN m.cb |-> LET w == Walk(m, c - 1) n == Len(w) IN
        <<VtkType2(types[c])>> \o [k \in 1..n |-> CHOOSE v \in Range(At(m.e, w[k])) : v \in Range(At(m.e, w[(k % n) + 1]))]]]
WriteFpma(m) == [v |-> m.v, faces |-> [f \in DOMAIN m.s[1] |-> CycleOf(m, f - 1)], cells |-> [c \in DOMAIN m.cb |-> Walk(m, c - 1)]]
=============================================================================
