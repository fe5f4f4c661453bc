----------------------------- MODULE ExpTrace -----------------------------
EXTENDS TraceBase, ExpRender
VARIABLES ty, val, seen
TraceInit == i = 1 /\ ty = <<>> /\ val = <<>> /\ seen = {}
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       CASE r.op = "new" -> ty' = r.types /\ val' = [k \in DOMAIN r.types |-> <<>>] /\ seen' = {}
         [] r.op = "p" -> val' = [val EXCEPT ![r.k] = r.v] /\ seen' = {x \in seen : x.k # r.k} /\ UNCHANGED ty
         [] OTHER ->
            /\ Expect(IF ty[r.k].t.k = "any" THEN r.tok # <<>> ELSE r.tok = Render(ty[r.k].t, val[r.k], ty[r.k].views[r.w]), "printed text")
            /\ Expect(r.v = val[r.k], "variable changed by printing")
            /\ Expect(\A x \in seen : (x.k = r.k /\ x.w = r.w /\ x.how = r.how) => x.txt = r.txt, "equal values print equally")
            /\ seen' = seen \cup {[k |-> r.k, w |-> r.w, how |-> r.how, txt |-> r.txt]} /\ UNCHANGED <<ty, val>>
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, ty, val, seen>>
=============================================================================
