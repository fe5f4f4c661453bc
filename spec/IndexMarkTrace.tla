--------------------------- MODULE IndexMarkTrace ---------------------------
EXTENDS TraceBase
A == INSTANCE IndexMark WITH LB <- 16
B(b) == IF b THEN 1 ELSE 0
TraceInit == i = 1
TraceNext == /\ i <= Len(T)
    /\ LET r == T[i] IN
       /\ Expect(r.isB = B(A!IsMarked(r.x, r.d)), "recognition of boundary indices")
       /\ Expect(r.isI = B(A!IsInvalid(r.x, r.d)), "recognition of invalid indices")
       /\ Expect(r.mk = A!Mark(r.x, r.d), "marking")
       /\ Expect(r.ex = A!Extract(r.x, r.d), "extraction")
       /\ Expect(r.inv = A!Invalid(4, r.d), "the invalid index")
       /\ Expect(r.bnd = A!Mark(A!Zero(4), r.d), "the mark")
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
