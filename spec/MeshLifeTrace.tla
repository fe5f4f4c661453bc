--------------------------- MODULE MeshLifeTrace ---------------------------
(* Traces of sessions on a mesh object: one record per public call, with the  *)
(* whole mesh (m), the reported cell types, and for loads the comparison with *)
(* a fresh mesh loaded from the same text.                                    *)
EXTENDS TraceBase, MeshLife
VARIABLE st

Unchanged(r) == Expect(r.m = st, "mesh unchanged")
Ok(r) == Expect(r.err = 0, "no exception")
StepNew(r) == Expect(r.m = EmptyMesh(r.dim), "a new mesh is empty") /\ Ok(r)
StepLoad(r) ==
    /\ Ok(r)
    /\ Expect(Describes(r.kind, r.file, r.m), "the mesh is the one described by the file")
    /\ Expect(r.types = TypesOf(r.kind, r.file), "cell types of the file")
    /\ Expect(r.plain, "centres and flags of new elements")
    /\ Expect(r.same = 1, "same as a fresh mesh loaded by a fresh reader")
StepBad(r) == Expect(r.err = 1, "unsupported cell type refused")
StepMissing(r) == Expect(r.err = 1, "missing file refused") /\ Unchanged(r)
StepClear(r) == Ok(r) /\ Expect(r.m = EmptyMesh(r.m.dim), "empty after clear")
StepBnd(r) == Ok(r) /\ Expect(BoundarySetUp(st, r.m), "boundary set-up")
StepEdit(r) == TRUE

\* centres of the boundary cells: those of their faces (the centres are fixed point numbers)
StepGeo(r) == LET m == [f \in (DOMAIN r.m \ {"cc", "fc", "bcc"}) |-> r.m[f]] IN
    /\ Ok(r) /\ Expect(m = st, "mesh unchanged")
    /\ Expect(Len(r.m.bcc) = Len(r.m.bc) /\ \A k \in DOMAIN r.m.bc : r.m.bcc[k] = At(r.m.fc, r.m.bc[k][2]), "centres of the boundary cells")
StepRaw(r) == Ok(r) /\ Expect(r.m = r.raw, "a mesh built element by element")
StepSet(r) == Ok(r) /\ Expect(r.m = IF r.op = "setl" THEN [st EXCEPT !.l[r.f + 1] = r.x] ELSE [st EXCEPT !.r[r.f + 1] = r.x], "one side set")

TraceInit == i = 1 /\ st = [dim |-> 0]
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       /\ CASE r.op = "new" -> StepNew(r)
            [] r.op = "load" -> StepLoad(r)
            [] r.op = "bad" -> StepBad(r)
            [] r.op = "missing" -> StepMissing(r)
            [] r.op = "clear" -> StepClear(r)
            [] r.op = "bnd" -> StepBnd(r)
            [] r.op = "edit" -> StepEdit(r)
            [] r.op = "bndg" -> StepGeo(r)
            [] r.op = "raw" -> StepRaw(r)
            [] r.op \in {"setl", "setr"} -> StepSet(r)
            [] r.op = "mark" -> Ok(r) /\ Unchanged(r)      \* centres and flags only
            [] r.op = "bndc" -> Ok(r) /\ Unchanged(r)      \* centres only
       /\ st' = IF r.op = "bndg" THEN st ELSE r.m
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, st>>
=============================================================================
