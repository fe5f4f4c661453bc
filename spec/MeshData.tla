------------------------------ MODULE MeshData ------------------------------
(* Cell data next to a VTK mesh (M14). An exported cell belongs to the mesh   *)
(* cell it came from; a column lists for each exported cell the value of its  *)
(* owner; reading is the inverse, by the name of the attribute.               *)
EXTENDS MeshWrite

\* owners of the exported cells
OwnersOf(m, types) ==
    IF m.dim = 2 THEN [k \in 1..Len(m.cb) |-> k - 1]
    ELSE FoldTo(LAMBDA acc, k : acc \o [q \in 1..Exported(m, types, k - 1) |-> k - 1], <<>>, Len(m.cb))

Keyword(dim, n) == IF n = 1 THEN "SCALARS" ELSE IF n = dim THEN "VECTORS" ELSE "TENSORS"
\* the components of a value completed to three dimensions
Padded(dim, x) == IF dim = 3 \/ Len(x) = 1 THEN x
                  ELSE IF Len(x) = 2 THEN <<x[1], x[2], 0>>
                  ELSE <<x[1], x[2], 0, x[3], x[4], 0, 0, 0, 0>>
Width(dim, n) == IF dim = 3 \/ n = 1 THEN n ELSE IF n = 2 THEN 3 ELSE 9
\* and back
Unpadded(dim, n, x) == IF dim = 3 \/ n = 1 THEN x
                       ELSE IF n = 2 THEN <<x[1], x[2]>> ELSE <<x[1], x[2], x[4], x[5]>>

\* attrs: << <<name, components>>, ... >>; vals[a][c + 1] = components of attribute a of mesh cell c
ColumnsOK(dim, owners, attrs, vals, out) ==
    /\ out.count = Len(owners)
    /\ Len(out.cols) = Len(attrs)
    /\ \A a \in DOMAIN attrs : LET col == out.cols[a] IN
         /\ col.kw = Keyword(dim, attrs[a][2]) /\ col.name = attrs[a][1] /\ col.type = "double"
         /\ col.vals = [k \in DOMAIN owners |-> Padded(dim, vals[a][owners[k] + 1])]

\* got[a][c]: what the attributes hold after the reading; cols: the columns of the file
ReadOK(dim, n, attrs, cols, got) ==
    \A a \in DOMAIN attrs :
        LET k == CHOOSE k \in DOMAIN cols : cols[k].name = attrs[a][1] IN
        got[a] = [c \in 1..n |-> Unpadded(dim, attrs[a][2], cols[k].vals[c])]
=============================================================================
