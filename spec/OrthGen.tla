----------------------------- MODULE OrthGen ------------------------------
(* Orthogonalisation: tuples of linearly independent integer vectors.         *)
EXTENDS VecOps, Json
CONSTANTS Coord, Dim, Num, Weak, Emit
VARIABLES v
Init == v = <<>>
Next == Len(v) < Num /\ \E x \in [1..Dim -> {c - 3 : c \in Coord}] : v' = Append(v, x) /\ Independent(v')
Spec == Init /\ [][Next]_v
\* the weakened design removes from every vector only the direction of the one before it
O == IF ~Weak THEN Orth(v) ELSE
     FoldLeft(LAMBDA r, x : LET j == Len(r.w) w == IF j = 0 THEN x ELSE [c \in DOMAIN x |-> (r.d[j + 1] * x[c] - IDot(x, r.w[j]) * r.w[j][c])]
                             IN [d |-> Append(r.d, IDot(w, w)), w |-> Append(r.w, w)], [d |-> <<1>>, w |-> <<>>], v)
\* determinants of matrices of scalar products
G(a, b) == IDot(v[a], v[b])
Gram(m) == CASE m = 0 -> 1 [] m = 1 -> G(1, 1) [] m = 2 -> G(1, 1) * G(2, 2) - G(1, 2) * G(1, 2)
           [] m = 3 -> G(1, 1) * (G(2, 2) * G(3, 3) - G(2, 3) * G(2, 3)) - G(1, 2) * (G(1, 2) * G(3, 3) - G(2, 3) * G(1, 3)) + G(1, 3) * (G(1, 2) * G(2, 3) - G(2, 2) * G(1, 3))
Perpendicular == \A a, b \in DOMAIN v : a # b => IDot(O.w[a], O.w[b]) = 0
\* the norms are those of the volumes: |u_k|^2 = D(k) / D(k - 1), and D(k) is the squared volume
Volumes == \A m \in 0..Len(v) : m <= 3 => O.d[m + 1] = Gram(m)
Norms == \A m \in DOMAIN v : IDot(O.w[m], O.w[m]) = O.d[m] * O.d[m + 1]
\* the k-th one differs from D(k - 1) v_k by a vector perpendicular to it
Spans == \A m \in DOMAIN v : IDot(O.w[m], v[m]) * O.d[m] = IDot(O.w[m], O.w[m]) 
Emitted == ~Emit \/ v = <<>> \/ PrintT(ToJson(v))
=============================================================================
