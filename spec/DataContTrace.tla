--------------------------- MODULE DataContTrace ---------------------------
EXTENDS TraceBase, DataCont
VARIABLES s, l
TraceInit == i = 1 /\ s = <<>> /\ l = ""
\* the view of the arrays by dimensions
ByDim(lay, c) == [p \in DOMAIN lay.dims |-> c[PosOf(lay.dims, lay.dims[p])]]
Name(d) == "dim " \o ToString(d)
Holds(lay, c, r) ==
    /\ Expect(\A k \in DOMAIN r.p : r.p[k] = c, "content by position")
    /\ Expect(\A k \in DOMAIN r.d : r.d[k] = ByDim(lay, c), "content by dimension or element")
    /\ Expect(r.oob = (IF lay.d = 0 THEN 0 ELSE 2 * Len(lay.dims)), "access out of range is refused")
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       IF r.op[1] = "new"
       THEN LET lay == Layout(r.l) IN
            /\ Expect(r.dims = lay.dims /\ r.mapped = lay.dims /\ r.size = Len(lay.dims) /\ r.tsize = Len(lay.dims), "mapped dimensions")
            /\ Expect(r.didx = [p \in DOMAIN lay.dims |-> PosOf(lay.dims, lay.dims[p]) - 1], "position of a dimension")
            /\ Expect(r.names = [p \in DOMAIN lay.dims |-> Name(lay.dims[p])], "names")
            /\ Expect(\A a \in {1, 2} : Holds(lay, EmptyC(lay), r.s[a]), "new container")
            /\ l' = r.l /\ s' = <<EmptyC(lay), EmptyC(lay)>>
       ELSE LET lay == Layout(l) x == Do(lay, s, r.op) IN
            /\ Expect(r.err = x.err, "refused or not")
            /\ Holds(lay, x.s[1], r.s[1]) /\ Holds(lay, x.s[2], r.s[2])
            /\ Expect(r.meshes = TRUE, "meshes unchanged")
            /\ l' = l /\ s' = x.s
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, s, l>>
=============================================================================
