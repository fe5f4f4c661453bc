---------------------------- MODULE CellAdjTrace ----------------------------
EXTENDS TraceBase
CONSTANTS Cells, Elems
VARIABLES st
A == INSTANCE CellAdj WITH s <- st, hist <- <<>>
TraceInit == i = 1 /\ st = [l |-> -1, r |-> -1, nl |-> -1, nr |-> -1]
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i]
           x == A!Do(st, r.op)
       IN /\ Expect(r.s = <<x.s.l, x.s.r, x.s.nl, x.s.nr>>, "state of the face after the call")
          /\ Expect(r.res = x.res, "answer of the call")
          /\ st' = x.s
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, st>>
=============================================================================
