----------------------------- MODULE VecTrace -----------------------------
EXTENDS TraceBase, VecOps
VARIABLES s, k
TraceInit == i = 1 /\ s = <<>> /\ k = ""
GsOK(r) ==
    LET o == TLCEval(Orth(r.v)) IN
    /\ \A x \in DOMAIN r.plain : \A m \in DOMAIN r.v :    \* without normalisation: 4096 u_m
          Expect(\A c \in DOMAIN r.v[m] : Abs(r.plain[x][m][c] * o.d[m] - 4096 * o.w[m][c]) <= r.tol * o.d[m], "orthogonalised vector")
    /\ \A x \in DOMAIN r.unit : \A m \in DOMAIN r.v :     \* normalised: 1024 e_m
          LET e == r.unit[x][m] w == o.w[m] IN
          /\ Expect(\A a, b \in DOMAIN e : Abs(e[a] * w[b] - e[b] * w[a]) <= (1 + r.tol) * (Abs(w[a]) + Abs(w[b])), "direction of a normalised vector")
          /\ Expect(IDot(e, w) > 0, "orientation of a normalised vector")
          /\ Expect(Abs(IDot(e, e) - 1048576) <= 4096 * (1 + r.tol), "length of a normalised vector")
          /\ Expect(Abs(r.norm2[x][m] * o.d[m] - 512 * o.d[m + 1]) <= r.tol * o.d[m], "norms")
          /\ Expect(Len(r.norm2[x]) = Len(r.v), "number of norms")
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       IF r.op[1] = "gs" THEN GsOK(r) /\ UNCHANGED <<s, k>>
       ELSE IF r.op[1] = "new" THEN s' = r.v /\ k' = r.kind
       ELSE LET x == TLCEval(DoV(k, s, r.op)) IN
            /\ Expect(r.v = x, "vectors after the operation")
            /\ IF r.op[1] = "norm" THEN Expect(NormOK(k, s[r.op[2]], r.x[1]), "norm") ELSE Expect(r.x = Observed(k, s, r.op), "observed value")
            /\ Expect(r.self, "a compound operator returns its object")
            /\ s' = x /\ k' = k
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, s, k>>
=============================================================================
