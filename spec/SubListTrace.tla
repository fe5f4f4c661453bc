--------------------------- MODULE SubListTrace ---------------------------
EXTENDS TraceBase, SubList
VARIABLE q
TraceInit == i = 1 /\ q = <<>>
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] x == Do(r.cap, q, r.op) IN
       /\ Expect(r.err = x.err, "refused or not")
       /\ Expect(r.q = x.q, "content of the list")
       /\ Expect(r.idx = x.q, "content by indexing")
       /\ Expect(r.size = Len(x.q) /\ r.num = Len(x.q), "reported size")
       /\ Expect(r.copy = x.q, "content of a copy")
       /\ q' = x.q
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, q>>
=============================================================================
