--------------------------- MODULE CompTimeTrace ----------------------------
(* What generated programs visited at compile time (see CompTime).            *)
EXTENDS TraceBase, CompTime
TraceInit == i = 1 /\ prog = <<>> /\ rest = <<>> /\ idx = 0 /\ out = <<>> /\ done = FALSE
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] p == r.p v == TLCEval(Visits(p)) IN
       /\ Expect(Len(r.out) = Len(v), "number of visited positions")
       /\ Expect(r.out = v, "positions in their order")
       /\ Expect(\A j \in DOMAIN r.args : r.args[j] = <<j - 1, r.text, j - 1>>, "every call gets the arguments as they were passed")
    /\ i' = i + 1 /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, cvars>>
=============================================================================
