------------------------------ MODULE MeshCub ------------------------------
(* All small meshes of unit cubes of dimension Dim: any set of occupied       *)
(* lattice cells, any sides of the faces swapped (chosen by the parity Swap), *)
(* either direction of the boundary walks. An element of a lattice is a       *)
(* tuple: even coordinates are points, odd ones intervals.                    *)
EXTENDS MeshFun, Json
CONSTANTS Dim, N1, N2, N3, N4, MaxCells
Ext == <<N1, N2, N3, N4>>
Lat == [1..Dim -> 0..(2 * N1)]                            \* big enough for the domain of tuples
DimOf(x) == Cardinality({k \in 1..Dim : x[k] % 2 = 1})
Cells0 == {x \in [1..Dim -> 1..(2 * N1 - 1)] : \A k \in 1..Dim : x[k] % 2 = 1 /\ x[k] < 2 * Ext[k]}
Faces1(x) == UNION {{[x EXCEPT ![k] = x[k] - 1], [x EXCEPT ![k] = x[k] + 1]} : k \in {q \in 1..Dim : x[q] % 2 = 1}}
\* the elements of all dimensions of a set of cells
RECURSIVE Levels(_, _)
Levels(top, d) == IF d = 0 THEN <<top>> ELSE Append(Levels(UNION {Faces1(x) : x \in top}, d - 1), top)
Code(x) == FoldTo(LAMBDA acc, k : acc * (2 * N1 + 1) + x[k], 0, Dim)
Ordered(S) == LET byCode == [c \in {Code(x) : x \in S} |-> CHOOSE x \in S : Code(x) = c]
                  q == SetToSortSeq(DOMAIN byCode, <) IN TLCEval([k \in DOMAIN q |-> byCode[q[k]]])
MeshOf(occ, swap, rev) ==
    LET lv == TLCEval(Levels(occ, Dim))                     \* lv[d+1] : elements of dimension d
        els == TLCEval([d \in 1..(Dim + 1) |-> TLCEval(Ordered(lv[d]))])
        num == TLCEval([d \in 1..(Dim + 1) |-> TLCEval([x \in lv[d] |-> (CHOOSE k \in DOMAIN els[d] : els[d][k] = x) - 1])])
        Subs(d, x) == LET q == Ordered(Faces1(x)) IN [k \in DOMAIN q |-> num[d][q[k]]]   \* of an element of dimension d
        cells == TLCEval([k \in DOMAIN els[Dim + 1] |-> LET w == Subs(Dim, els[Dim + 1][k]) IN
                     TLCEval(IF rev THEN [q \in DOMAIN w |-> w[Len(w) + 1 - q]] ELSE w)])
        nf == Len(els[Dim])
        own == TLCEval([f \in 1..nf |-> TLCEval(SetToSortSeq({c - 1 : c \in {z \in DOMAIN cells : (f - 1) \in Range(cells[z])}}, <))])
        NextIn(c, f) == LET w == cells[c + 1] p == CHOOSE k \in DOMAIN w : w[k] = f - 1 IN w[(p % Len(w)) + 1]
        sw == TLCEval([f \in 1..nf |-> (f + Len(own[f])) % 3 \in swap])
        left == TLCEval([f \in 1..nf |-> IF Len(own[f]) = 1 THEN IF sw[f] THEN -1 ELSE own[f][1] ELSE IF sw[f] THEN own[f][2] ELSE own[f][1]])
        right == TLCEval([f \in 1..nf |-> IF Len(own[f]) = 1 THEN IF sw[f] THEN own[f][1] ELSE -1 ELSE IF sw[f] THEN own[f][1] ELSE own[f][2]])
    IN [dim |-> Dim,
        v |-> [k \in DOMAIN els[1] |-> [j \in 1..Dim |-> 4 * els[1][k][j]]],
        e |-> [k \in DOMAIN els[2] |-> Subs(1, els[2][k])],
        s |-> [d \in 1..(Dim - 2) |-> [k \in DOMAIN els[d + 2] |-> Subs(d + 1, els[d + 2][k])]],
        l |-> left, r |-> right,
        nl |-> [f \in 1..nf |-> IF left[f] = -1 THEN -1 ELSE NextIn(left[f], f)],
        nr |-> [f \in 1..nf |-> IF right[f] = -1 THEN -1 ELSE NextIn(right[f], f)],
        cb |-> [c \in DOMAIN cells |-> cells[c][1]], bc |-> <<>>, idx |-> TRUE]

VARIABLES occ, swap, rev
vars == <<occ, swap, rev>>
Init == /\ occ \in {S \in SUBSET Cells0 : S # {} /\ Cardinality(S) <= MaxCells}
        /\ swap \in {{}, {0}, {1, 2}} /\ rev \in BOOLEAN
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Dims == 0..Dim
\* ---- properties of the design, on every mesh ---------------------------------------------
Design ==
    LET m == TLCEval(MeshOf(occ, swap, rev))
        inc == TLCEval([s \in Dims |-> TLCEval([t \in Dims |-> TLCEval(IncSets(m, s, t))])])
        Through(s, c, t) == LET a == inc[s][c] b == inc[c][t] IN [x \in DOMAIN a |-> UNION {b[y + 1] : y \in a[x]}]
    IN /\ PrintT(ToJson([m |-> m]))
       /\ WellFormed(m)
       \* incidence does not depend on the path, and is symmetric
       /\ \A s, c, t \in Dims : s >= c /\ c >= t => Through(s, c, t) = inc[s][t]
       /\ \A s, t \in Dims : \A x \in DOMAIN inc[s][t] : \A y \in inc[s][t][x] : (x - 1) \in inc[t][s][y + 1]
       \* a cube of dimension d has 2^(d-k) * C(d,k) elements of dimension k; here: 2d facets
       /\ \A d \in 1..Dim : \A x \in DOMAIN inc[d][d - 1] : Cardinality(inc[d][d - 1][x]) = 2 * d
       /\ \A s, c \in Dims : s # c =>
            LET nei == TLCEval(NeighSets(m, s, c, s))
                g == TLCEval(Greedy(nei)) IN
            /\ \A x \in DOMAIN nei : \A y \in nei[x] : (x - 1) \in nei[y + 1] /\ y # x - 1       \* symmetric, irreflexive
            /\ Proper(g, nei)                                                                      \* greedy colours properly
            /\ \A x \in DOMAIN g : g[x] <= Cardinality(nei[x])                                     \* with at most degree + 1 colours
            /\ \A x \in DOMAIN g : \A k \in 0..(g[x] - 1) : \E y \in nei[x] : g[y + 1] = k
=============================================================================
