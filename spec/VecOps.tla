------------------------------ MODULE VecOps ------------------------------
(* Vectors of numbers n / 2^k (or integers), and orthogonalisation in exact   *)
(* integer arithmetic.                                                        *)
EXTENDS Arith
Zero == <<0, 0>>
Kinds(k, d) == [j \in 1..d |-> k]
\* a list of initial values: missing coordinates are zero, surplus ones are ignored
FromList(d, vals) == [j \in 1..d |-> IF j <= Len(vals) THEN vals[j] ELSE Zero]
Memb(k, op, a, b) == [j \in DOMAIN a |-> Conv(k, BinK(k, k, op, a[j], b[j]))]
WithScalar(k, op, a, x, kx) == [j \in DOMAIN a |-> Conv(k, BinK(k, kx, op, a[j], x))]
Dot(a, b) == FoldLeft(LAMBDA s, j : BinN("+", s, BinN("*", a[j], b[j])), Zero, [j \in DOMAIN a |-> j])
Cross(k, a, b) == LET m(x, y) == BinN("*", a[x], b[y]) d(x, y) == BinN("-", m(x, y), m(y, x)) IN <<d(2, 3), d(3, 1), d(1, 2)>>
ISqrt(n) == CHOOSE m \in 0..46340 : m * m <= n /\ (m = 46340 \/ (m + 1) * (m + 1) > n)

\* the vectors after the operation op on the list of vectors s; the scalar it gives (or <<>>)
DoV(k, s, op) ==
    CASE op[1] = "init" -> [s EXCEPT ![op[2]] = FromList(Len(s[1]), op[4])]          \* register, way, values
      [] op[1] = "put" -> [s EXCEPT ![op[2]][op[3]] = op[4]]
      [] op[1] = "bin" -> [s EXCEPT ![op[2]] = Memb(k, op[3], s[op[4]], s[op[5]])]
      [] op[1] = "cmp" -> [s EXCEPT ![op[2]] = Memb(k, op[3], s[op[2]], s[op[4]])]
      [] op[1] = "scale" -> [s EXCEPT ![op[2]] = WithScalar(k, op[3], s[op[4]], op[5], op[6])]
      [] op[1] = "left" -> [s EXCEPT ![op[2]] = WithScalar(k, "*", s[op[3]], op[4], k)]
      [] op[1] = "scaleby" -> [s EXCEPT ![op[2]] = WithScalar(k, op[3], s[op[2]], op[4], op[5])]
      [] op[1] = "own" -> [s EXCEPT ![op[2]] = WithScalar(k, op[3], s[op[2]], s[op[2]][op[4]], k)]
      [] op[1] = "cross" -> [s EXCEPT ![op[2]] = Cross(k, s[op[3]], s[op[4]])]
      [] OTHER -> s
Observed(k, s, op) ==
    CASE op[1] = "dot" -> Dot(s[op[2]], s[op[3]])
      [] op[1] = "sos" -> Dot(s[op[2]], s[op[2]])
      [] op[1] = "eq" -> <<(IF s[op[2]] = s[op[3]] THEN 1 ELSE 0), (IF s[op[2]] # s[op[3]] THEN 1 ELSE 0)>>
      [] op[1] = "wide" -> \* with 2^S a + b in the place of a, results split into the two parts
            LET a == s[op[2]] b == s[op[3]] c == s[op[4]] three == <<3, 0>>
                pair(x, y) == [j \in DOMAIN a |-> <<x[j], y[j]>>]
                add == pair(a, Memb(k, "+", b, c)) sub == pair(a, Memb(k, "-", b, c))
                tri == pair(WithScalar(k, "*", a, three, k), WithScalar(k, "*", b, three, k))
            IN <<<<Dot(a, c), Dot(b, c)>>, add, sub, tri, tri, add, sub, tri, (\A j \in DOMAIN a : a[j] = Zero) /\ b = c>>
      [] OTHER -> <<>>
\* m is the norm of a times 256, up to rounding (integers: the integer part)
NormOK(k, a, m) == LET s == Dot(a, a) IN IF k = "i" THEN m = 256 * ISqrt(s[1]) ELSE
    IF s[2] <= 16 /\ s[1] < P2(14 + s[2]) THEN LET u == s[1] * P2(16 - s[2]) IN Abs(m * m - u) <= 2 * m + 2
    ELSE IF s[2] > 16 THEN Abs(m * m - s[1] \div P2(s[2] - 16)) <= 2 * m + 2
    ELSE Abs((m \div 256) - ISqrt(s[1] \div P2(s[2]))) <= 1

\* ---- orthogonalisation of integer vectors v[1..n]. D(k) is the determinant of the scalar
\* products of the first k vectors; w(k) = D(k - 1) * (the k-th orthogonal vector); both are integer
IDot(a, b) == FoldLeft(LAMBDA s, j : s + a[j] * b[j], 0, [j \in DOMAIN a |-> j])
\* [d, w]: sequences of the determinants (d[1] = 1 stands for D(0)) and of the vectors
Orth(v) == FoldLeft(LAMBDA r, x :
              LET w == FoldLeft(LAMBDA y, j : [c \in DOMAIN x |-> (r.d[j + 1] * y[c] - IDot(x, r.w[j]) * r.w[j][c]) \div r.d[j]], x, [j \in DOMAIN r.w |-> j])
              IN [d |-> Append(r.d, IDot(w, w) \div r.d[Len(r.d)]), w |-> Append(r.w, w)],
              [d |-> <<1>>, w |-> <<>>], v)
Independent(v) == \A k \in DOMAIN v : Orth(SubSeq(v, 1, k)).d[k + 1] # 0
=============================================================================
