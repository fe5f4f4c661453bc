---------------------------- MODULE MeshWriteMC ----------------------------
(* The design of writing: for every small mesh (loaded from any small file)   *)
(* and every assignment of native and general types to its cells, a canonical *)
(* writer satisfies the relation FileOK and its output, loaded by the         *)
(* canonical loader, preserves the mesh.                                      *)
EXTENDS MeshFiles, MeshWrite
VARIABLE gen       \* the cells written in general form
vars2 == <<chosen, gen>>
Init2 == Init /\ gen \in SUBSET (1..MaxCells)
Next2 == Next /\ gen' = gen
Spec2 == Init2 /\ [][Next2]_vars2
Useful == gen \subseteq DOMAIN chosen

\* coordinates of the lattice
PtOf(k) == IF Kind = "vtk2"
           THEN IF k < (NX + 1) * (NY + 1) THEN <<8 * (k % (NX + 1)), 8 * (k \div (NX + 1))>>
                ELSE LET q == k - (NX + 1) * (NY + 1) IN <<8 * (q % NX) + 4, 8 * (q \div NX) + 4>>
           ELSE IF k < NP3 THEN <<8 * (k % (NX + 1)), 8 * ((k \div (NX + 1)) % (NY + 1)), 8 * (k \div ((NX + 1) * (NY + 1)))>>
                ELSE LET q == k - NP3 IN <<8 * (q % NX) + 4, 8 * (q \div NX) + 4, 4>>
Pts == [k \in 1..NPts |-> PtOf(k - 1)]
GenType == IF Kind = "vtk2" THEN 202 ELSE 305
Swap2(s) == [s EXCEPT ![2] = s[3], ![3] = s[2]]
DesignW ==
    Useful =>
    LET f0 == TLCEval(File)
        f == TLCEval([f0 EXCEPT !.xyz = Pts])
        m == TLCEval(Load(Kind, f))
        nt == [k \in DOMAIN chosen |-> TypeOf(IF Kind = "fpma" THEN "vtk3" ELSE Kind, chosen[k][3][1])]
        types == TLCEval([k \in DOMAIN chosen |-> IF k \in gen THEN GenType ELSE nt[k]])
        out == TLCEval(IF Kind = "vtk2" THEN WriteVtk2(m, types) ELSE WriteVtk3(m, types))
        geo == IF Kind = "vtk2" THEN [fc |-> <<>>, cc |-> <<>>] ELSE WGeo(m)
        back == TLCEval([xyz |-> out.v \o out.far, cells |-> out.cells])
    IN /\ PrintT(ToJson([file |-> f0, types |-> types]))
       /\ FileOK(m, geo, types, "vtk", out, TRUE)
       /\ Kind = "vtk2" => Preserved(m, Load("vtk2", back))
       /\ Kind # "vtk2" /\ gen = {} => Preserved(m, Load("vtk3", back))
       /\ Kind # "vtk2" /\ gen # {} => LET n == TLCEval(Load("vtk3", back)) IN Tessellated(m, types, n, TypesOf("vtk3", back))
       /\ Kind # "vtk2" /\ gen = {} =>
            LET o2 == TLCEval(WriteFpma(m)) IN
            FpmaOK(m, o2) /\ Preserved(m, Load("fpma", [xyz |-> o2.v, faces |-> o2.faces, cells |-> o2.cells]))
       \* the relation tells wrong files apart
       /\ Len(chosen) = 0 \/ ~FileOK(m, geo, types, "vtk", [out EXCEPT !.cells = SubSeq(@, 1, Len(@) - 1)], TRUE)
       /\ (Kind # "vtk2" /\ Len(chosen) > 0 /\ gen = {}) => ~FileOK(m, geo, types, "vtk", [out EXCEPT !.cells[1] = Swap2(@)], TRUE)
       /\ (Kind # "vtk2" /\ gen # {}) => ~FileOK(m, geo, types, "vtk", [out EXCEPT !.map[1] = <<@[1], @[2] + 1>>], TRUE)
       /\ (Kind # "vtk2" /\ gen # {}) => ~FileOK(m, geo, types, "vtk", [out EXCEPT !.far[1] = <<@[1] + 5>>], TRUE)
=============================================================================
