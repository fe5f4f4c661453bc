------------------------------ MODULE MeshGeo ------------------------------
(* Exact integer geometry of a mesh: vertices have integer coordinates (units *)
(* of 1/4), everything else is derived. A witness w of the geometry gives     *)
(*   2D: w.cyc[c]  the cycle of vertices around each cell,                    *)
(*   3D: w.cyc[f]  the cycle of vertices around each face, and                *)
(*       w.sg[c]   for each cell pairs <<face, sign>>: with sign 1 the cycle  *)
(*                 runs right-handed around the direction out of the cell,    *)
(* and is checked here before it is used. Answers of the code are rounded     *)
(* fixed point numbers; every comparison allows just the rounding.            *)
EXTENDS MeshFun

P(m, k) == m.v[k + 1]
Sub(p, q) == [k \in DOMAIN p |-> p[k] - q[k]]
Add(p, q) == [k \in DOMAIN p |-> p[k] + q[k]]
Mul(c, p) == [k \in DOMAIN p |-> c * p[k]]
Dot(p, q) == FoldTo(LAMBDA a, k : a + p[k] * q[k], 0, Len(p))
Abs(x) == IF x < 0 THEN -x ELSE x
Cross2(p, q) == p[1] * q[2] - p[2] * q[1]
Cross(p, q) == <<p[2] * q[3] - p[3] * q[2], p[3] * q[1] - p[1] * q[3], p[1] * q[2] - p[2] * q[1]>>
Zero(n) == [k \in 1..n |-> 0]
SumSeq(q) == FoldTo(LAMBDA a, k : a + q[k], 0, Len(q))
SumPts(q, n) == FoldTo(LAMBDA a, k : Add(a, q[k]), Zero(n), Len(q))
Near(x, y, tol) == Abs(x - y) <= tol
NearPt(p, q, tol) == \A k \in DOMAIN p : Near(p[k], q[k], tol)
\* x is the square root of n up to s
IsRoot(x, n, s) == x >= 0 /\ (x + s) * (x + s) >= n /\ (x <= s \/ (x - s) * (x - s) <= n)

\* ---- the remainders of answers in at least double precision --------------------------------
\* An answer x is given as hi + lo/F14, lo rounded: the exact relations hold for it up to that rounding.
F14 == 16384
\* the mean of the numbers hs + ls/F14
MeanFine(hi, lo, hs, ls) == LET n == Len(hs) k == Len(hi) IN
    NearPt(Add(Mul(n, lo), Mul(F14, Sub(Mul(n, hi), SumPts(hs, k)))), SumPts(ls, k), n + 2)
\* the square root of n
RootFine(hi, lo, n) == Near((n - hi * hi) * (F14 \div 2), hi * lo + (lo * lo) \div (2 * F14), hi + 2)
\* the integer n
IntFine(hi, lo, n) == hi = n /\ Abs(lo) <= 1

Nxt(c, k) == c[(k % Len(c)) + 1]
Points(m, cyc) == [k \in DOMAIN cyc |-> P(m, cyc[k])]
\* twice the signed area of a polygon seen from point q; in space: twice the vector of area
Area2(pts, q) == SumSeq([k \in DOMAIN pts |-> Cross2(Sub(pts[k], q), Sub(Nxt(pts, k), q))])
AreaV(pts, q) == SumPts([k \in DOMAIN pts |-> Cross(Sub(pts[k], q), Sub(Nxt(pts, k), q))], 3)

\* ---- the witness ---------------------------------------------------------------------------
EdgeSets(m, list) == {Range(m.e[x + 1]) : x \in Range(list)}
DirEdges(c) == {<<c[k], Nxt(c, k)>> : k \in DOMAIN c}
Rev(D) == {<<d[2], d[1]>> : d \in D}
Oriented(w, z) == IF z[2] = 1 THEN DirEdges(w.cyc[z[1] + 1]) ELSE Rev(DirEdges(w.cyc[z[1] + 1]))
\* six times the volume of a cell
Vol6(m, w, c) == LET p0 == P(m, w.cyc[w.sg[c + 1][1][1] + 1][1]) IN
    SumSeq([k \in DOMAIN w.sg[c + 1] |-> LET z == w.sg[c + 1][k] pts == Points(m, w.cyc[z[1] + 1]) IN z[2] * Dot(AreaV(pts, pts[1]), Sub(pts[1], p0))])
Witness2(m, w) == /\ Len(w.cyc) = Len(m.cb)
                  /\ \A c \in Idx(m.cb) : NoDup(w.cyc[c + 1]) /\ CycSet(w.cyc[c + 1]) = EdgeSets(m, Walk(m, c))
                                          /\ Area2(Points(m, w.cyc[c + 1]), P(m, w.cyc[c + 1][1])) > 0
Flat(pts) == LET n == AreaV(pts, pts[1]) IN n # Zero(3) /\ \A k \in DOMAIN pts : Dot(n, Sub(pts[k], pts[1])) = 0
Witness3(m, w) ==
    /\ Len(w.cyc) = Len(m.l) /\ Len(w.sg) = Len(m.cb)
    /\ \A f \in Idx(m.l) : NoDup(w.cyc[f + 1]) /\ CycSet(w.cyc[f + 1]) = EdgeSets(m, m.s[1][f + 1]) /\ Flat(Points(m, w.cyc[f + 1]))
    /\ \A c \in Idx(m.cb) :
         LET sg == w.sg[c + 1] D == [k \in DOMAIN sg |-> Oriented(w, sg[k])] U == UNION Range(D) IN
         /\ [k \in DOMAIN sg |-> sg[k][1]] = Walk(m, c)
         /\ Cardinality(U) = SumSeq([k \in DOMAIN D |-> Cardinality(D[k])]) /\ U = Rev(U)      \* a closed oriented surface
         /\ Vol6(m, w, c) > 0
WitnessOK(m, w) == IF m.dim = 2 THEN Witness2(m, w) ELSE IF m.dim = 3 THEN Witness3(m, w) ELSE w.cyc = <<>>
\* +1 / -1 : the orientation of face f as seen from its cell c
SignOf(w, c, f) == LET q == SelectSeq(w.sg[c + 1], LAMBDA z : z[1] = f) IN q[1][2]
\* outward from the left cell, or into the only cell on the right: the sign of the area vector of face f
NormalSign(m, w, f) == IF At(m.l, f) >= 0 THEN SignOf(w, At(m.l, f), f) ELSE -SignOf(w, At(m.r, f), f)

\* ---- centres, in units of 1/256 of the unit of the vertices ---------------------------------
MeanOK(c, subs) == LET n == Len(subs) IN NearPt(Mul(n, c), SumPts(subs, Len(c)), n + 1)
\* the centroid of a flat polygon in space: coordinates in the direction of the greatest component of its area
Centroid3OK(c, pts) ==
    LET n == AreaV(pts, pts[1])
        j == CHOOSE k \in 1..3 : \A q \in 1..3 : Abs(n[q]) <= Abs(n[k])
        part(k) == Cross(Sub(pts[k], pts[1]), Sub(Nxt(pts, k), pts[1]))[j]
        sum == SumPts([k \in DOMAIN pts |-> Mul(part(k), Add(Sub(pts[k], pts[1]), Sub(Nxt(pts, k), pts[1])))], 3)
    IN NearPt(Mul(3 * n[j], Sub(c, Mul(256, pts[1]))), Mul(256, sum), 3 * Abs(n[j]))
Centroid3Fine(c, l, pts) ==
    LET n == AreaV(pts, pts[1])
        j == CHOOSE k \in 1..3 : \A q \in 1..3 : Abs(n[q]) <= Abs(n[k])
        part(k) == Cross(Sub(pts[k], pts[1]), Sub(Nxt(pts, k), pts[1]))[j]
        sum == SumPts([k \in DOMAIN pts |-> Mul(part(k), Add(Sub(pts[k], pts[1]), Sub(Nxt(pts, k), pts[1])))], 3)
    IN NearPt(Add(Mul(F14, Sub(Mul(3 * n[j], Sub(c, Mul(256, pts[1]))), Mul(256, sum))), Mul(3 * n[j], l)), Zero(3), 3 * Abs(n[j]))
SubIdx(m, d, x) == IF d = m.dim THEN Walk(m, x) ELSE m.s[d - 1][x + 1]
CentresOK(m, w, tess, c) ==
    /\ Len(c) = m.dim /\ \A d \in 1..m.dim : Len(c[d]) = NElem(m, d)
    /\ \A x \in DOMAIN m.e : c[1][x] = Mul(128, Add(P(m, m.e[x][1]), P(m, m.e[x][2])))
    /\ \A d \in 2..m.dim : \A x \in DOMAIN c[d] :
          IF tess /\ m.dim = 3 /\ d = 2 THEN Centroid3OK(c[d][x], Points(m, w.cyc[x]))
          ELSE LET s == SubIdx(m, d, x - 1) IN MeanOK(c[d][x], [k \in DOMAIN s |-> c[d - 1][s[k] + 1]])
CentresFine(m, w, tess, c, l) ==
    /\ Len(l) = m.dim /\ \A d \in 1..m.dim : Len(l[d]) = NElem(m, d)
    /\ \A x \in DOMAIN m.e : l[1][x] = Zero(m.dim)
    /\ \A d \in 2..m.dim : \A x \in DOMAIN l[d] :
          IF tess /\ m.dim = 3 /\ d = 2 THEN Centroid3Fine(c[d][x], l[d][x], Points(m, w.cyc[x]))
          ELSE LET s == SubIdx(m, d, x - 1) IN MeanFine(c[d][x], l[d][x], [k \in DOMAIN s |-> c[d - 1][s[k] + 1]], [k \in DOMAIN s |-> l[d - 1][s[k] + 1]])

\* ---- measures -------------------------------------------------------------------------------
\* vectors from one vertex along the edges of an element which leave it
LegVectors(m, es, vs) ==
    LET o == CHOOSE v \in vs : \A u \in vs : v <= u
        legs == SelectSeq(SetToSortSeq(es, <), LAMBDA e : o \in Range(m.e[e + 1]))
    IN [k \in DOMAIN legs |-> LET e == m.e[legs[k] + 1] IN Sub(P(m, IF e[1] = o THEN e[2] ELSE e[1]), P(m, o))]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1 ELSE IF Len(M) = 1 THEN M[1][1] ELSE
    FoldTo(LAMBDA a, j : a + (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] *
        Det([r \in 1..(Len(M) - 1) |-> [q \in 1..(Len(M) - 1) |-> M[r + 1][IF q < j THEN q ELSE q + 1]]]), 0, Len(M))
Gram(u) == [a \in DOMAIN u |-> [b \in DOMAIN u |-> Dot(u[a], u[b])]]
\* Fixed point measures: length*256, area*128 (2D: *512), volume*768; in 4D (parallelepipeds, simplices) 16*4^d*measure*(d! for simplices)
MeasOK(m, w, ms) ==
    /\ Len(ms) = m.dim /\ \A d \in 1..m.dim : Len(ms[d]) = NElem(m, d)
    /\ IF m.dim = 4 THEN
          \A d \in 1..4 : LET es == TLCEval(IF d = 1 THEN [x \in 1..Len(m.e) |-> {x - 1}] ELSE IncSets(m, d, 1)) vs == TLCEval(IncSets(m, d, 0)) IN
             \A x \in DOMAIN ms[d] : LET u == TLCEval(LegVectors(m, es[x], vs[x])) IN
                /\ Len(u) = d
                /\ IF d = 4 THEN Near(ms[d][x], 16 * Abs(Det(u)), 2 + (16 * Abs(Det(u))) \div 200000)
                            ELSE IsRoot(ms[d][x], 256 * Det(Gram(u)), 2)
       ELSE
       /\ \A x \in DOMAIN m.e : LET d == Sub(P(m, m.e[x][1]), P(m, m.e[x][2])) IN IsRoot(ms[1][x], 4096 * Dot(d, d), 2)
       /\ m.dim = 2 => \A c \in DOMAIN m.cb : LET a == 16 * Area2(Points(m, w.cyc[c]), P(m, w.cyc[c][1])) IN Near(ms[2][c], a, 2 + a \div 200000)
       /\ m.dim = 3 => /\ \A f \in DOMAIN m.l : LET a == AreaV(Points(m, w.cyc[f]), P(m, w.cyc[f][1])) IN IsRoot(ms[2][f], 16 * Dot(a, a), 2)
                       /\ \A c \in DOMAIN m.cb : LET v == 2 * Vol6(m, w, c - 1) IN Near(ms[3][c], v, 2 + v \div 100000)
MeasFine(m, w, ms, ml) ==
    /\ Len(ml) = m.dim /\ \A d \in 1..m.dim : Len(ml[d]) = NElem(m, d)
    /\ IF m.dim = 4 THEN
          \A d \in 1..4 : LET es == TLCEval(IF d = 1 THEN [x \in 1..Len(m.e) |-> {x - 1}] ELSE IncSets(m, d, 1)) vs == TLCEval(IncSets(m, d, 0)) IN
             \A x \in DOMAIN ms[d] : LET u == TLCEval(LegVectors(m, es[x], vs[x])) IN
                IF d = 4 THEN IntFine(ms[d][x], ml[d][x], 16 * Abs(Det(u))) ELSE RootFine(ms[d][x], ml[d][x], 256 * Det(Gram(u)))
       ELSE
       /\ \A x \in DOMAIN m.e : LET d == Sub(P(m, m.e[x][1]), P(m, m.e[x][2])) IN RootFine(ms[1][x], ml[1][x], 4096 * Dot(d, d))
       /\ m.dim = 2 => \A c \in DOMAIN m.cb : IntFine(ms[2][c], ml[2][c], 16 * Area2(Points(m, w.cyc[c]), P(m, w.cyc[c][1])))
       /\ m.dim = 3 => /\ \A f \in DOMAIN m.l : LET a == AreaV(Points(m, w.cyc[f]), P(m, w.cyc[f][1])) IN RootFine(ms[2][f], ml[2][f], 16 * Dot(a, a))
                       /\ \A c \in DOMAIN m.cb : IntFine(ms[3][c], ml[3][c], 2 * Vol6(m, w, c - 1))
\* the measure of the domain from its boundary alone
DomainOK(m, w, ms) ==
    m.dim = 3 =>
    LET bf == SelectSeq([k \in DOMAIN m.l |-> k - 1], LAMBDA f : (At(m.l, f) >= 0) # (At(m.r, f) >= 0))
        S(f) == LET pts == Points(m, w.cyc[f + 1]) c == IF At(m.l, f) >= 0 THEN At(m.l, f) ELSE At(m.r, f) IN
                SignOf(w, c, f) * Dot(AreaV(pts, pts[1]), Sub(pts[1], P(m, 0)))
        tot == 2 * SumSeq([k \in DOMAIN bf |-> S(bf[k])])
    IN Near(SumSeq(ms[3]), tot, (2 + tot \div 100000) * (1 + Len(m.cb)))

\* ---- normals (fixed point 1024), orientation of edges ------------------------------------------
UnitOK(n) == Near(Dot(n, n), 1048576, 2500)
PerpTo(n, d) == Abs(Dot(n, d)) <= 1 + SumSeq([k \in DOMAIN d |-> Abs(d[k])])
\* perpendicular, with the remainders of the normal in units of 1/F18
F18 == 262144
PerpFine(n, l, d) == Abs(F18 * Dot(n, d) + Dot(l, d)) <= 1 + SumSeq([k \in DOMAIN d |-> Abs(d[k])])
NormalsFine(m, n, l) ==
    /\ Len(l) = Len(n)
    /\ LET es == TLCEval(IF m.dim = 2 THEN [f \in 1..Len(m.e) |-> {f - 1}] ELSE IncSets(m, m.dim - 1, 1)) IN
       \A f \in DOMAIN n : \A e \in es[f] : PerpFine(n[f], l[f], Sub(P(m, m.e[e + 1][2]), P(m, m.e[e + 1][1])))
\* the direction A -> B of edge e follows the boundary of cell c counter-clockwise (2D)
Along2(m, w, c, e) == <<m.e[e + 1][1], m.e[e + 1][2]>> \in DirEdges(w.cyc[c + 1])
NormalsOK(m, w, n) ==
    /\ Len(n) = Len(m.l) /\ \A f \in DOMAIN n : UnitOK(n[f])
    /\ IF m.dim = 2 THEN \A f \in DOMAIN n :
             LET d == Sub(P(m, m.e[f][2]), P(m, m.e[f][1]))
                 c == IF m.l[f] >= 0 THEN m.l[f] ELSE m.r[f]
                 out == IF Along2(m, w, c, f - 1) THEN <<d[2], -d[1]>> ELSE <<-d[2], d[1]>>
             IN PerpTo(n[f], d) /\ (IF m.l[f] >= 0 THEN Dot(n[f], out) > 0 ELSE Dot(n[f], out) < 0)
       ELSE IF m.dim = 3 THEN \A f \in DOMAIN n :
             LET pts == Points(m, w.cyc[f]) IN
             /\ \A k \in DOMAIN pts : PerpTo(n[f], Sub(Nxt(pts, k), pts[k]))
             /\ NormalSign(m, w, f - 1) * Dot(n[f], AreaV(pts, pts[1])) > 0
       ELSE LET es == TLCEval(IncSets(m, 3, 1)) vs == TLCEval(IncSets(m, 3, 0)) cv == TLCEval(IncSets(m, 4, 0)) IN
            \A f \in DOMAIN n :
             /\ \A e \in es[f] : PerpTo(n[f], Sub(P(m, m.e[e + 1][1]), P(m, m.e[e + 1][2])))
             \* in 4D the code (and its unit test) has the opposite convention: the left cell is ahead (convex cells)
             /\ \A v \in vs[f] : /\ m.l[f] >= 0 => \A q \in cv[m.l[f] + 1] \ vs[f] : Dot(n[f], Sub(P(m, v), P(m, q))) < 0
                                 /\ m.r[f] >= 0 => \A q \in cv[m.r[f] + 1] \ vs[f] : Dot(n[f], Sub(P(m, v), P(m, q))) > 0
\* precondition in 2D: the left cell of an edge is at its left
LeftIsLeft(m, w) == m.dim = 2 => \A f \in DOMAIN m.l : (m.l[f] >= 0 => Along2(m, w, m.l[f], f - 1)) /\ (m.r[f] >= 0 => ~Along2(m, w, m.r[f], f - 1))
Orient3(m, w) == [f \in DOMAIN m.l |-> LET D == IF NormalSign(m, w, f - 1) = 1 THEN DirEdges(w.cyc[f]) ELSE Rev(DirEdges(w.cyc[f])) IN
                    [k \in DOMAIN m.s[1][f] |-> IF m.e[m.s[1][f][k] + 1] \in D THEN 1 ELSE 0]]

\* ---- positions of cells --------------------------------------------------------------------------
PosOf(cc, fc, f, x) == IF x >= 0 THEN cc[x + 1] ELSE fc[f]
DiffOK(m, cc, fc, diff, dist) ==
    /\ Len(diff) = Len(m.l) /\ Len(dist) = Len(m.l)
    /\ \A f \in DOMAIN m.l :
         LET d == Sub(PosOf(cc, fc, f, m.r[f]), PosOf(cc, fc, f, m.l[f]))
             s == [k \in DOMAIN d |-> d[k] \div 8]
         IN NearPt(diff[f], d, 2) /\ IsRoot(dist[f], Dot(s, s), 4)
DiffFine(m, cc, fc, ccl, fcl, diff, diffl) ==
    /\ Len(diffl) = Len(m.l)
    /\ \A f \in DOMAIN m.l :
         LET d == Sub(PosOf(cc, fc, f, m.r[f]), PosOf(cc, fc, f, m.l[f]))
             l == Sub(PosOf(ccl, fcl, f, m.r[f]), PosOf(ccl, fcl, f, m.l[f]))
         IN NearPt(Add(Mul(F14, Sub(diff[f], d)), diffl[f]), l, 3)
=============================================================================
