--------------------------- MODULE SingletonTrace ---------------------------
(* The events recorded while threads request instances (see Singleton).       *)
EXTENDS TraceBase, Singleton
TraceInit == /\ i = 1 /\ prog = <<>> /\ needs = <<>> /\ fails = <<>> /\ owner = <<>> /\ obj = <<>> /\ ids = 0 /\ lock = 0 /\ stack = <<>> /\ pos = <<>> /\ mon = <<>> /\ hist = <<>>
Count(ev, ks) == Cardinality({k \in DOMAIN ev : ev[k].k \in ks})
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] m == TLCEval(Watch(1..3, r.ev)) IN
       /\ Expect(m.bad = "", m.bad)
       /\ Expect(r.done, "every request ends")
       /\ Expect(Count(r.ev, {"call"}) = Count(r.ev, {"ret", "exc"}), "every request returns")
       /\ Expect(Count(r.ev, {"exc"}) = Count(r.ev, {"fail"}), "a failure is reported to its own request")
    /\ i' = i + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, vars>>
=============================================================================
