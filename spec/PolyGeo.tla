------------------------------ MODULE PolyGeo ------------------------------
(* All simple polygons with at most MaxN vertices on a grid, and the facts    *)
(* the geometry of meshes rests on. Star-shaped ones are printed for replay.  *)
EXTENDS MeshGeo, Json
CONSTANTS G, MaxN
VARIABLES p
Grid == {<<x, y>> : x \in 0..(G - 1), y \in 0..(G - 1)}
Code(q) == q[1] * G + q[2]
Init == p \in {<<q>> : q \in Grid}
\* the first vertex is the least one
Next == Len(p) < MaxN /\ \E q \in Grid : q \notin Range(p) /\ Code(q) > Code(p[1]) /\ p' = Append(p, q)
Spec == Init /\ [][Next]_p
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Turn(a, b, c) == Sgn(Cross2(Sub(b, a), Sub(c, a)))
Between(a, b, c) == \A k \in 1..2 : (a[k] <= c[k] /\ c[k] <= b[k]) \/ (b[k] <= c[k] /\ c[k] <= a[k])
Meet(a, b, c, d) == \/ (Turn(a, b, c) * Turn(a, b, d) < 0 /\ Turn(c, d, a) * Turn(c, d, b) < 0)
                    \/ (Turn(a, b, c) = 0 /\ Between(a, b, c)) \/ (Turn(a, b, d) = 0 /\ Between(a, b, d))
                    \/ (Turn(c, d, a) = 0 /\ Between(c, d, a)) \/ (Turn(c, d, b) = 0 /\ Between(c, d, b))
\* the triangle of three consecutive vertices does not fold back onto itself
BackOnItself(a, b, c) == Turn(a, b, c) = 0 /\ (Between(a, b, c) \/ Between(b, c, a))
Simple == /\ Len(p) >= 3 /\ Code(p[2]) < Code(p[Len(p)])           \* one direction only
          /\ \A k \in DOMAIN p : ~BackOnItself(p[k], Nxt(p, k), Nxt(p, (k % Len(p)) + 1))
          /\ \A a, b \in DOMAIN p : b > a + 1 /\ ~(a = 1 /\ b = Len(p)) => ~Meet(p[a], Nxt(p, a), p[b], Nxt(p, b))
N == Len(p)
C == SumPts(p, 2)                                                    \* N times the mean of the vertices
Fan == [k \in 1..N |-> Cross2(Sub(Mul(N, p[k]), C), Sub(Mul(N, Nxt(p, k)), C))]
Star == \A k \in 1..N : Sgn(Fan[k]) = Sgn(Fan[1]) /\ Fan[k] # 0
WeakStar == \E s \in {-1, 1} : \A k \in 1..N : Fan[k] * s >= 0
Abs1(q) == [k \in DOMAIN q |-> Abs(q[k])]
\* ---- facts ---------------------------------------------------------------------------------
AreaFacts == \A q \in Grid : Area2(p, q) = Area2(p, p[1])                \* does not depend on the apex
FanFacts == /\ Area2(p, p[1]) # 0
            /\ SumSeq(Abs1(Fan)) >= N * N * Abs(Area2(p, p[1]))
            /\ (SumSeq(Abs1(Fan)) = N * N * Abs(Area2(p, p[1]))) = WeakStar   \* unsigned triangles need a star-shaped polygon
RevFacts == Area2([k \in 1..N |-> p[N + 1 - k]], p[1]) = -Area2(p, p[1])
Moment(q) == SumPts([k \in 1..N |-> Mul(Cross2(Sub(p[k], q), Sub(Nxt(p, k), q)), Add(q, Add(p[k], Nxt(p, k))))], 2)
CentroidFacts == \A q \in Grid : Moment(q) = Moment(p[1])
\* prism over the polygon as a mesh: area vectors, volume, normal directions
Lift(q, z) == <<q[1], q[2], z>>
PM == [dim |-> 3, v |-> [k \in 1..(2 * N) |-> IF k <= N THEN Lift(p[k], 0) ELSE Lift(p[k - N], 2)],
       e |-> [k \in 1..(3 * N) |-> IF k <= N THEN <<k - 1, k % N>> ELSE IF k <= 2 * N THEN <<k - 1, N + ((k - N) % N)>> ELSE <<k - 2 * N - 1, k - N - 1>>],
       s |-> <<[f \in 1..(N + 2) |-> IF f = 1 THEN [k \in 1..N |-> k - 1] ELSE IF f = 2 THEN [k \in 1..N |-> N + k - 1]
                                     ELSE <<f - 3, 2 * N + ((f - 2) % N), N + f - 3, 2 * N + f - 3>>]>>,
       l |-> [f \in 1..(N + 2) |-> 0], r |-> [f \in 1..(N + 2) |-> -1], nl |-> [f \in 1..(N + 2) |-> f % (N + 2)], nr |-> [f \in 1..(N + 2) |-> -1],
       cb |-> <<0>>, bc |-> <<>>, idx |-> TRUE]
PW == LET s == Sgn(Area2(p, p[1])) IN
      [cyc |-> [f \in 1..(N + 2) |-> IF f = 1 THEN [k \in 1..N |-> k - 1] ELSE IF f = 2 THEN [k \in 1..N |-> N + k - 1]
                                     ELSE <<f - 3, (f - 2) % N, N + ((f - 2) % N), N + f - 3>>],
       sg |-> << [f \in 1..(N + 2) |-> <<f - 1, IF f = 1 THEN -s ELSE s>>] >>]
PrismFacts == LET m == TLCEval(PM) w == TLCEval(PW) IN
    /\ WellFormed(m) /\ WitnessOK(m, w)
    /\ Vol6(m, w, 0) = 3 * Abs(Area2(p, p[1])) * 2
    /\ SumPts([k \in DOMAIN w.sg[1] |-> LET z == w.sg[1][k] pts == Points(m, w.cyc[z[1] + 1]) IN Mul(z[2], AreaV(pts, pts[1]))], 3) = Zero(3)  \* closed
    /\ Dot(AreaV(Points(m, w.cyc[1]), <<0, 0, 0>>), <<0, 0, 1>>) = Area2(p, p[1])
    \* every edge of the cell is along the boundary of exactly one of its two faces
    /\ LET o == Orient3(m, w) IN \A e \in Idx(m.e) :
          Cardinality({f \in DOMAIN m.l : \E k \in DOMAIN m.s[1][f] : m.s[1][f][k] = e /\ o[f][k] = 1}) = 1
    /\ DomainOK(m, w, << <<>>, <<>>, <<2 * Vol6(m, w, 0)>> >>)
Facts == Simple => /\ AreaFacts /\ FanFacts /\ RevFacts /\ CentroidFacts /\ PrismFacts
                   /\ (Star => PrintT(ToJson([p |-> p])))
\* a weakened claim which must fail: the fan from the centre gives the area of any simple polygon
Weak == Simple => SumSeq(Abs1(Fan)) = N * N * Abs(Area2(p, p[1]))
=============================================================================
