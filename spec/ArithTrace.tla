---------------------------- MODULE ArithTrace ----------------------------
EXTENDS TraceBase, Arith
VARIABLES vs, ks
TraceInit == i = 1 /\ vs = <<>> /\ ks = <<>>
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       IF r.st = "new" THEN vs' = r.vars /\ ks' = r.kinds /\ Expect(Len(r.vars[1]) = Len(r.kinds), "number of values")
       ELSE LET x == TLCEval(Exec(ks, vs, r)) IN
            /\ Expect(r.res = x.res, "result")
            /\ Expect(r.vars = x.vars, "variables after the statement")
            /\ Expect(r.self, "a compound operator returns its object")
            /\ vs' = x.vars /\ ks' = ks
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, vs, ks>>
=============================================================================
