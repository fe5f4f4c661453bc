--------------------------- MODULE MeshDataTrace ---------------------------
(* Traces of writing and reading cell data.                                   *)
EXTENDS TraceBase, MeshData
VARIABLES m, own

StepMesh(r) == Expect(r.err = 0, "no exception") /\ Expect(r.n = Len(OwnersOf(r.m, r.types)), "number of exported cells")
StepWrite(r) == /\ Expect(r.err = 0, "no exception")
                /\ Expect(r.kept /\ r.same, "writing does not change the data")
                /\ Expect(r.out.parsed, "the written data are well formed")
                /\ Expect(ColumnsOK(m.dim, own, r.attrs, r.vals, r.out), "the columns of the data")
StepRead(r) == /\ Expect(r.err = 0, "no exception")
               /\ Expect(ReadOK(r.dim, r.n, r.attrs, r.cols, r.got), "the values read")
               /\ Expect(r.rest = r.rest0, "the other members are left alone")
StepRound(r) == /\ Expect(r.err = 0, "no exception")
                /\ Expect(r.n = Len(own), "number of loaded cells")
                /\ Expect(\A a \in DOMAIN r.attrs : r.got[a] = [k \in DOMAIN own |-> r.vals[a][own[k] + 1]], "each value restored at its cell")
TraceInit == i = 1 /\ m = [dim |-> 0] /\ own = <<>>
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       /\ CASE r.op = "new" -> TRUE
            [] r.op = "mesh" -> StepMesh(r)
            [] r.op = "write" -> StepWrite(r)
            [] r.op = "read" -> StepRead(r)
            [] r.op = "rt" -> StepRound(r)
       /\ IF r.op = "mesh" THEN m' = r.m /\ own' = TLCEval(OwnersOf(r.m, r.types)) ELSE UNCHANGED <<m, own>>
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, m, own>>
=============================================================================
