--------------------------- MODULE MeshFunTrace ---------------------------
(* Traces of connectivity queries: a mesh is built (raw), then queried.       *)
EXTENDS TraceBase, MeshFun
VARIABLES st,    \* the mesh
          vis    \* the visits of the last traversal
Ok(r) == Expect(r.err = 0, "no exception")
ToPairs(q) == {<<p[1], p[2]>> : p \in Range(q)}
H(r) == IF r.s > r.t THEN r.s ELSE r.t
L(r) == IF r.s > r.t THEN r.t ELSE r.s

StepApply(r) ==
    /\ Ok(r)
    /\ Expect(ToPairs(r.pairs) = IncPairs(st, r.s, r.t), "the visited pairs are the incident ones")
    /\ Expect(H(r) = L(r) + 1 => NoDup(r.pairs), "directly bounding elements are visited once")
    /\ Expect(r.n = Len(r.pairs), "the same number of visits by a function object")
    \* a traversal of one element visits the same pairs as its part of the traversal of the mesh
    /\ Expect(r.s > r.t => /\ Len(r.ones) = NElem(st, r.s)
                           /\ \A k \in DOMAIN r.ones : ToPairs(r.ones[k]) = {p \in IncPairs(st, r.s, r.t) : p[1] = k - 1}
                           /\ (r.s = r.t + 1 => \A k \in DOMAIN r.ones : NoDup(r.ones[k])), "traversals of single elements")

Exactly(lists, sets, asc) ==
    /\ Expect(Len(lists) = Len(sets), "one list per element")
    /\ \A k \in DOMAIN lists :
         /\ Expect(Range(lists[k]) = sets[k], "exactly the elements of the relation")
         /\ Expect(NoDup(lists[k]), "each listed once")
         /\ Expect(asc => Ascending(lists[k]), "ascending order")
StepConn(r) ==
    /\ Ok(r)
    /\ Exactly(r.lists, IncSets(st, r.s, r.t), r.o = "A")
    /\ Expect(r.lists2 = r.lists, "same answer again")
    /\ r.o = "O" => \A k \in DOMAIN r.lists :
          Expect(r.lists[k] = FirstSeen(PartnersOf(vis, k - 1)), "order of the first visit")
\* the original form: in the order in which the connections meet them
InOrderMet(r) == \A x \in DOMAIN r.lists : r.lists[x] = MetFirst(r.first[x], r.second, IF r.s = r.t THEN x - 1 ELSE -1)
StepNei(r) ==
    /\ Ok(r) /\ Exactly(r.lists, NeighSets(st, r.s, r.c, r.t), r.o = "A")
    /\ Expect(r.o = "O" => InOrderMet(r), "the order in which the connections meet them")
    /\ Expect(r.lists2 = r.lists, "same answer of the member of the mesh")

StepCol(r) ==
    LET nei == TLCEval(NeighSets(st, r.s, r.t, r.s)) g == TLCEval(Greedy(nei)) IN
    /\ Ok(r)
    /\ Expect(Len(r.col) = Len(nei), "a colour for every element")
    /\ Expect(Proper(r.col, nei), "no two connected elements have the same colour")
    /\ Expect(r.col2 = r.col, "the same colouring again")
    /\ Expect(r.meth = "G" => r.col = g, "the lowest colour unused by the coloured neighbours")
    /\ Expect(\A k \in DOMAIN r.col : r.col[k] \in 0..MaxOf(g), "no more colours than the greedy method")

TraceInit == i = 1 /\ st = [dim |-> 0] /\ vis = <<>>
TraceNext ==
    /\ i <= Len(T)
    /\ LET r == T[i] IN
       \/ /\ r.op = "raw" /\ Ok(r) /\ Expect(r.m = r.raw, "the mesh as built") /\ Expect(WellFormed(r.m), "input mesh is well formed")
          /\ st' = r.m /\ vis' = <<>>
       \/ r.op = "empty" /\ Ok(r) /\ Expect(r.m = EmptyMesh(r.dim), "empty mesh") /\ st' = r.m /\ vis' = <<>>
       \/ r.op = "apply" /\ StepApply(r) /\ st' = st /\ vis' = r.pairs
       \/ r.op = "conn" /\ StepConn(r) /\ UNCHANGED <<st, vis>>
       \/ r.op = "nei" /\ StepNei(r) /\ UNCHANGED <<st, vis>>
       \/ r.op = "col" /\ StepCol(r) /\ UNCHANGED <<st, vis>>
       \/ r.op = "dump" /\ Ok(r) /\ Expect(r.m = st, "queries do not change the mesh") /\ UNCHANGED <<st, vis>>
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, st, vis>>
=============================================================================
