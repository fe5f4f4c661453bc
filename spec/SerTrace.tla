----------------------------- MODULE SerTrace -----------------------------
EXTENDS TraceBase, SerTypes
VARIABLES ty, vs, log, rd, size
TraceInit == i = 1 /\ ty = <<>> /\ vs = <<>> /\ log = <<>> /\ rd = 0 /\ size = 0
\* r's variables after reading item it into variable q of its type
Got(r, it, q, old) ==
    LET t == ty[it.k].views[it.w] IN
    /\ Expect(Same(t, r.vars[it.k][q], it.v), "value read")
    /\ Expect(r.how = "ret" \/ Kept(t, old, r.vars[it.k][q]), "members that are no attributes")
Others(r, touched) == \A k \in DOMAIN vs, q \in {1, 2} : <<k, q>> \in touched \/ r.vars[k][q] = vs[k][q]
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       CASE r.op = "new" -> ty' = r.types /\ vs' = r.vars /\ log' = <<>> /\ rd' = 0 /\ size' = 0 /\ Expect(r.size = 0 /\ ~r.valid, "new serializer")
         [] r.op = "p" -> Expect(Others(r, {<<r.k, r.q>>}), "other variables") /\ vs' = r.vars /\ UNCHANGED <<ty, log, rd, size>>
         [] r.op \in {"w", "wm"} ->
            LET new == IF r.op = "w" THEN <<[k |-> r.k, w |-> r.w, v |-> vs[r.k][r.q]]>>
                       ELSE [j \in DOMAIN r.g |-> [k |-> r.g[j][1], w |-> 1, v |-> vs[r.g[j][1]][r.g[j][2]]]] IN
            /\ Expect(Others(r, {}), "variables changed by writing")
            /\ Expect(r.size > size, "written data")
            /\ Expect(r.valid, "data to be read")
            /\ log' = log \o new /\ size' = r.size /\ UNCHANGED <<ty, vs, rd>>
         [] r.op \in {"r", "rm"} ->
            LET G == IF r.op = "r" THEN <<<<r.k, r.q>>>> ELSE r.g IN
            /\ \A j \in DOMAIN G : Got(r, log[rd + j], G[j][2], vs[G[j][1]][G[j][2]])
            /\ Expect(Others(r, {G[j] : j \in DOMAIN G}), "other variables")
            /\ Expect(r.size = size, "data changed by reading")
            /\ rd' = rd + Len(G)
            /\ Expect(r.valid = (rd' < Len(log)), "everything read")
            /\ vs' = r.vars /\ UNCHANGED <<ty, log, size>>
         [] OTHER ->
            /\ Got(r, [k |-> r.k, w |-> r.w, v |-> vs[r.k][r.q]], 3 - r.q, vs[r.k][3 - r.q])
            /\ Expect(Others(r, {<<r.k, 3 - r.q>>}), "other variables")
            /\ Expect(r.made > 0 /\ r.used = r.made, "consumed data")
            /\ vs' = r.vars /\ UNCHANGED <<ty, log, rd, size>>
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, ty, vs, log, rd, size>>
=============================================================================
