-------------------------- MODULE MeshWriteTrace --------------------------
(* Traces of sessions with two meshes and persistent writers (M11, M12, M13). *)
EXTENDS TraceBase, MeshWrite
VARIABLE slot     \* the meshes: slot number -> [m, geo], or <<>>
None == [k \in {0, 1} |-> <<>>]
Ok(r) == Expect(r.err = 0, "no exception")
GeoOf(m) == [fc |-> m.fc, cc |-> m.cc]
Conn(m) == [k \in DOMAIN m \ {"fc", "cc", "bcc"} |-> m[k]]
Valid(r) == Expect(WellFormed(r.m), "input mesh is well formed")
Put(r) == slot' = [slot EXCEPT ![r.k] = [m |-> Conn(r.m), geo |-> GeoOf(r.m)]]

StepWrite(r) ==
    LET sl == slot[r.k]
        types == IF r.types = <<>> THEN [c \in DOMAIN sl.m.cb |-> IF sl.m.dim = 2 THEN 202 ELSE 305] ELSE r.types IN
    /\ Ok(r)
    /\ Expect(r.same, "the same file and mapping as by a fresh writer")
    /\ Expect(r.kept, "writing does not change the mesh")
    /\ Expect(r.fmt = "vtk" => r.eff = types, "types used")
    /\ Expect(r.out.parsed, "the file is well formed")
    /\ Expect(r.fmt = "vtk" => r.out.header = r.head, "the header of the file")
    /\ Expect(FileOK(sl.m, sl.geo, types, r.fmt, r.out, r.orient), "the content of the file")

StepRound(r) ==
    LET sl == slot[r.k] IN
    /\ Ok(r)
    /\ IF r.fmt = "vtk" /\ sl.m.dim = 3 /\ \E c \in DOMAIN r.types : ~Native(r.types[c])
       THEN Expect(Tessellated(sl.m, r.types, r.m2, r.types2), "the written pieces load as a mesh of them")
       ELSE /\ Expect(Preserved(sl.m, r.m2), "the mesh is preserved by writing and loading")
            /\ Expect(r.types2 = TypesKept(r.fmt, r.types), "types of the cells")

TraceInit == i = 1 /\ slot = None
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       \/ r.op = "new" /\ Ok(r) /\ slot' = None
       \/ r.op = "mesh" /\ Ok(r) /\ Expect(Conn(r.m) = r.raw, "the mesh as built") /\ Valid(r) /\ Put(r)
       \/ r.op = "edit" /\ Ok(r) /\ Valid(r) /\ Put(r)
       \/ r.op = "w" /\ StepWrite(r) /\ slot' = slot
       \/ r.op = "rt" /\ StepRound(r) /\ slot' = slot
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, slot>>
=============================================================================
