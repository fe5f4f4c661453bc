----------------------------- MODULE MeshFiles -----------------------------
(* All small mesh files, built cell by cell (the environment of the loaders). *)
(* 3D solids on a 2x1x1 lattice: per lattice cell a hexahedron, two wedges    *)
(* (either diagonal) or up to six pyramids; 2D: quads, triangles (either      *)
(* diagonal), four triangles around a centre on an NX x NY lattice. The       *)
(* order of the cells and the first vertex of each cell are free.             *)
EXTENDS MeshLoad, TLC, Json
CONSTANTS Kind,      \* "vtk3" or "vtk2" or "fpma"
          MaxCells, NX, NY, Rots

\* lattice point (x, y, z) and the centre of lattice cell (x, y)
P3(x, y, z) == x + (NX + 1) * (y + (NY + 1) * z)
NP3 == (NX + 1) * (NY + 1) * 2
C3(x, y) == NP3 + x + NX * y
P2(x, y) == x + (NX + 1) * y
C2(x, y) == (NX + 1) * (NY + 1) + x + NX * y
Cols == (0..(NX - 1)) \X (0..(NY - 1))

H(c) == LET x == c[1] y == c[2] IN
    << P3(x,y,0), P3(x+1,y,0), P3(x+1,y+1,0), P3(x,y+1,0), P3(x,y,1), P3(x+1,y,1), P3(x+1,y+1,1), P3(x,y+1,1) >>
Pick(s, idx) == [k \in DOMAIN idx |-> s[idx[k]]]
\* candidates: <<column, shape family, the cell>>
Cand3(c) == LET h == H(c) a == C3(c[1], c[2]) IN
    {<<c, "hex", <<12>> \o h>>}
    \cup {<<c, "wa", <<13>> \o Pick(h, q)>> : q \in {<<1,2,3,5,6,7>>, <<1,3,4,5,7,8>>}}
    \cup {<<c, "wb", <<13>> \o Pick(h, q)>> : q \in {<<1,2,4,5,6,8>>, <<2,3,4,6,7,8>>}}
    \cup {<<c, "pyr", <<14>> \o Pick(h, q) \o <<a>> >> :
            q \in {<<1,2,3,4>>, <<1,5,6,2>>, <<2,6,7,3>>, <<3,7,8,4>>, <<4,8,5,1>>, <<5,8,7,6>>}}
Cand2(c) == LET x == c[1] y == c[2]
                a == P2(x,y) b == P2(x+1,y) d == P2(x+1,y+1) e == P2(x,y+1) m == C2(x,y) IN
    {<<c, "q", <<9, a, b, d, e>>>>, <<c, "p", <<7, a, b, d, e>>>>}
    \cup {<<c, "a", <<5, a, b, d>>>>, <<c, "a", <<5, a, d, e>>>>}
    \cup {<<c, "b", <<5, a, b, e>>>>, <<c, "b", <<5, b, d, e>>>>}
    \cup {<<c, "x", <<5, p[1], p[2], m>>>> : p \in {<<a,b>>, <<b,d>>, <<d,e>>, <<e,a>>}}
Cands == UNION {IF Kind = "vtk2" THEN Cand2(c) ELSE Cand3(c) : c \in Cols}

\* rotation of the vertices of a planar cell, or reversal (negative r)
Rot2(cell, r) == LET v == Verts(cell) n == Len(v) IN
    <<cell[1]>> \o [k \in 1..n |-> IF r >= 0 THEN v[((k - 1 + r) % n) + 1] ELSE v[((n - k - r) % n) + 1]]
\* half turn of a solid about its axis (keeps the shape)
Rot3(cell, r) == LET v == Verts(cell) IN
    IF r = 0 THEN cell
    ELSE IF cell[1] = 12 THEN <<12>> \o Pick(v, <<3,4,1,2,7,8,5,6>>)
    ELSE IF cell[1] = 13 THEN <<13>> \o Pick(v, <<2,3,1,5,6,4>>)
    ELSE <<14>> \o Pick(v, <<2,3,4,1,5>>)

VARIABLES chosen    \* sequence of <<column, family, cell as written>>, and the candidates used
vars == <<chosen>>
Fits(x) == \A k \in DOMAIN chosen : LET y == chosen[k] IN
    y[1] = x[1] => (y[2] = x[2] /\ y[4] # x[3] /\ x[2] \notin {"hex", "q", "p"})
Init == chosen = <<>>
Add == /\ Len(chosen) < MaxCells
       /\ \E x \in Cands, r \in Rots :
            /\ Fits(x)
            /\ chosen' = Append(chosen, <<x[1], x[2], IF Kind = "vtk2" THEN Rot2(x[3], r) ELSE Rot3(x[3], r), x[3]>>)
Next == Add
Spec == Init /\ [][Next]_vars

SolidFile == [xyz |-> <<>>, cells |-> [k \in DOMAIN chosen |-> chosen[k][3]]]
\* an fpma file of the same solids: faces in order of the first occurrence
FpmaFile ==
    LET cyc == TLCEval([k \in DOMAIN chosen |-> TLCEval(FaceCycles(chosen[k][3]))])
        flat == TLCEval(FoldTo(LAMBDA acc, k : acc \o cyc[k], <<>>, Len(chosen)))
        faces == TLCEval(FoldTo(LAMBDA acc, k : IF \E q \in DOMAIN acc : Range(acc[q]) = Range(flat[k]) THEN acc ELSE Append(acc, flat[k]), <<>>, Len(flat)))
        Num(c) == (CHOOSE q \in DOMAIN faces : Range(faces[q]) = Range(c)) - 1
    IN [xyz |-> <<>>, faces |-> faces, cells |-> TLCEval([k \in DOMAIN cyc |-> TLCEval([q \in DOMAIN cyc[k] |-> Num(cyc[k][q])])])]
File == IF Kind = "fpma" THEN FpmaFile ELSE SolidFile

\* points are not modelled here; give the relation any list long enough
NPts == IF Kind = "vtk2" THEN (NX + 1) * (NY + 1) + NX * NY ELSE NP3 + NX * NY
WithPts(f) == [f EXCEPT !.xyz = TLCEval([k \in 1..NPts |-> <<k>>])]

\* ---- properties of the design -----------------------------------------------------
\* (one invariant, so that the mesh is computed once per state)
Design ==
    LET f0 == TLCEval(File)
        f == TLCEval(WithPts(f0))
        m == TLCEval(Load(Kind, f))
    IN /\ PrintT(ToJson([file |-> f0]))
       /\ Describes(Kind, f, m)                \* the canonical loader satisfies the relation
       /\ WellFormed(m)                        \* and gives a consistent manifold mesh
       \* the relation is not vacuous: swapping the sides of a face or dropping a link breaks it
       /\ Len(chosen) = 0 \/ ~Describes(Kind, f, [m EXCEPT !.l[1] = m.r[1], !.r[1] = m.l[1]])
       /\ Len(chosen) = 0 \/ ~Describes(Kind, f, [m EXCEPT !.nl[1] = 0])
       /\ Len(chosen) = 0 \/ ~Describes(Kind, f, [m EXCEPT !.e[1] = <<m.e[1][1], m.e[1][1]>>])

=============================================================================
