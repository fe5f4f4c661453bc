--------------------------- MODULE MeshGeoTrace ---------------------------
(* Traces of geometric functions: a mesh is built with a witness of its       *)
(* geometry, then its centres are initialised and functions are called.       *)
EXTENDS TraceBase, MeshGeo
VARIABLES st,    \* the mesh as built
          w,     \* witness of its geometry
          pos    \* stored centres: [cc, fc], and whether the boundary cells are set up
Ok(r) == Expect(r.err = 0, "no exception")
\* a wrong digit beyond the rounding, in the answers of meshes of at least double precision
Fine(r, v, what) == Expect(r.fine => v, what)
None == [cc |-> <<>>, fc |-> <<>>, ccl |-> <<>>, fcl |-> <<>>, bnd |-> FALSE, set |-> FALSE]
NoCells(m) == [m EXCEPT !.l = <<>>, !.r = <<>>, !.bc = <<>>]
TraceInit == i = 1 /\ st = [dim |-> 0] /\ w = <<>> /\ pos = None
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       \/ /\ r.op = "raw" /\ Ok(r) /\ Expect(r.m = r.raw, "the mesh as built") /\ Expect(WellFormed(r.m), "input mesh is well formed")
          /\ Expect(WitnessOK(r.m, r.w), "witness of the geometry") /\ Expect(LeftIsLeft(r.m, r.w) \/ r.loose, "left cells are at the left")
          /\ st' = r.m /\ w' = r.w /\ pos' = None
       \/ r.op = "empty" /\ Ok(r) /\ Expect(r.m = EmptyMesh(r.dim), "empty mesh") /\ st' = r.m /\ w' = [cyc |-> <<>>, sg |-> <<>>] /\ pos' = None
       \/ /\ r.op = "bcen" /\ pos.bnd /\ Ok(r) /\ Expect(r.bcc = [k \in DOMAIN r.bcc |-> pos.fc[r.m.bc[k][2] + 1]], "boundary cells lie at their faces")
          /\ Expect(NoCells(r.m) = NoCells(st), "nothing else changes") /\ UNCHANGED <<st, w, pos>>
       \/ r.op = "cen" /\ Ok(r) /\ Expect(CentresOK(st, w, r.meth = "T", r.c), "centres are the true ones")
          /\ Fine(r, CentresFine(st, w, r.meth = "T", r.c, r.cl), "centres in full precision") /\ UNCHANGED <<st, w, pos>>
       \/ /\ r.op = "init" /\ Ok(r) /\ Expect(CentresOK(st, w, r.meth = "T", r.c), "centres are the true ones")
          /\ Fine(r, CentresFine(st, w, r.meth = "T", r.c, r.cl), "centres in full precision")
          /\ Expect(r.cc = r.c[st.dim] /\ r.fc = r.c[st.dim - 1] /\ r.ccl = r.cl[st.dim] /\ r.fcl = r.cl[st.dim - 1], "the computed centres are stored")
          /\ pos' = [pos EXCEPT !.cc = r.cc, !.fc = r.fc, !.ccl = r.ccl, !.fcl = r.fcl, !.set = TRUE] /\ UNCHANGED <<st, w>>
       \/ /\ r.op = "meas" /\ Ok(r) /\ Expect(MeasOK(st, w, r.ms), "measures are the true ones")
          /\ Fine(r, MeasFine(st, w, r.ms, r.ml), "measures in full precision")
          /\ Expect(DomainOK(st, w, r.ms), "the measures of the cells sum up to the measure of the domain") /\ UNCHANGED <<st, w, pos>>
       \/ r.op = "norm" /\ Ok(r) /\ Expect(NormalsOK(st, w, r.n), "unit normals from the left to the right cell")
          /\ Fine(r, NormalsFine(st, r.n, r.nl), "normals in full precision") /\ UNCHANGED <<st, w, pos>>
       \/ r.op = "diff" /\ Ok(r) /\ Expect(DiffOK(st, pos.cc, pos.fc, r.diff, r.dist), "difference and distance of the cells")
          /\ Fine(r, DiffFine(st, pos.cc, pos.fc, pos.ccl, pos.fcl, r.diff, r.diffl), "differences in full precision") /\ UNCHANGED <<st, w, pos>>
       \/ /\ r.op = "ori" /\ st.dim = 3 /\ Ok(r) /\ Expect(r.ori = Orient3(st, w), "edges along the right-handed direction around the normal")
          /\ Expect(r.ori2 = r.ori, "the same for single edges") /\ UNCHANGED <<st, w, pos>>
       \/ /\ r.op = "ori" /\ st.dim = 2 /\ Ok(r)
          /\ Expect({<<q[1], q[2]>> : q \in Range(r.ori)} = IncPairs(st, 2, 1), "all edges of all cells")
          /\ Expect(\A k \in DOMAIN r.ori : r.ori[k][3] = (IF Along2(st, w, r.ori[k][1], r.ori[k][2]) THEN 1 ELSE 0), "the cell is at the left of the edge")
          /\ Expect(r.ori2 = [k \in DOMAIN r.ori |-> r.ori[k][3]], "the same for elements") /\ UNCHANGED <<st, w, pos>>
       \/ /\ r.op = "bnd" /\ Ok(r)
          /\ Expect(NoCells(r.m) = NoCells(st), "only boundary cells change")
          /\ Expect(\A f \in DOMAIN st.l : /\ st.l[f] >= 0 => r.m.l[f] = st.l[f]
                                           /\ st.r[f] >= 0 => r.m.r[f] = st.r[f], "cells stay")
          /\ pos' = [pos EXCEPT !.bnd = TRUE] /\ UNCHANGED <<st, w>>
       \/ /\ r.op = "dump" /\ Ok(r) /\ Expect(NoCells(r.m) = NoCells(st) /\ (pos.bnd \/ r.m = st), "functions do not change the mesh")
          /\ Expect(pos.set => r.cc = pos.cc /\ r.fc = pos.fc, "nor the stored centres") /\ UNCHANGED <<st, w, pos>>
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, st, w, pos>>
=============================================================================
