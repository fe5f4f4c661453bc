------------------------------ MODULE MeshFun ------------------------------
(* Queries of the connectivity of a mesh: incidence, connections, neighbours  *)
(* and colourings, on the abstract mesh of MeshBase.                          *)
EXTENDS MeshBase, TLC

\* Directly bounding elements of all elements of dimension d, as a sequence of sets
BoundSets(m, d) == TLCEval([x \in 1..NElem(m, d) |-> TLCEval(Bound(m, d, x - 1))])
\* DownTo(m, h, l)[x+1] : the elements of dimension l which are parts of element x of dimension h >= l
DownTo(m, h, l) ==
    LET start == [x \in 1..NElem(m, h) |-> {x - 1}]
        Step(acc, k) == LET b == TLCEval(BoundSets(m, h + 1 - k)) IN
                        TLCEval([x \in DOMAIN acc |-> UNION {b[y + 1] : y \in acc[x]}])
    IN FoldTo(Step, start, h - l)
\* Incident elements of dimension t, for every element of dimension s # t
Transposed(d, n) == TLCEval([y \in 1..n |-> {x - 1 : x \in {z \in DOMAIN d : (y - 1) \in d[z]}}])
IncSets(m, s, t) == IF s >= t THEN DownTo(m, s, t) ELSE Transposed(DownTo(m, t, s), NElem(m, s))
\* Incidence as a set of pairs <<index in dimension s, index in dimension t>>
IncPairs(m, s, t) == LET z == TLCEval(IncSets(m, s, t)) IN UNION {{<<x - 1, y>> : y \in z[x]} : x \in DOMAIN z}

Ascending(q) == \A k \in 1..(Len(q) - 1) : q[k] < q[k + 1]
\* the values of a sequence in the order of their first occurrence
FirstSeen(q) == FoldLeft(LAMBDA acc, x : IF x \in Range(acc) THEN acc ELSE Append(acc, x), <<>>, q)
PartnersOf(pairs, x) == FoldLeft(LAMBDA acc, p : IF p[1] = x THEN Append(acc, p[2]) ELSE acc, <<>>, pairs)

\* Neighbours: elements of dimension t sharing an element of dimension c with the element of dimension s
NeighSets(m, s, c, t) ==
    LET a == TLCEval(IncSets(m, s, c)) b == TLCEval(IncSets(m, c, t)) IN
    TLCEval([x \in DOMAIN a |-> (UNION {b[y + 1] : y \in a[x]}) \ (IF s = t THEN {x - 1} ELSE {})])

\* elements in the order in which they are first met, going through the lists of `second` of the elements of `first`
MetFirst(first, second, self) ==
    LET step(acc, y) == IF y = self \/ y \in Range(acc) THEN acc ELSE Append(acc, y)
        one(acc, c) == FoldLeft(step, acc, second[c + 1])
    IN FoldLeft(one, <<>>, first)

\* ---- colourings: a sequence of colours, per element of the coloured dimension --------------
Proper(col, nei) == \A x \in DOMAIN nei : \A y \in nei[x] : col[y + 1] # col[x]
LeastFree(used) == CHOOSE k \in 0..Cardinality(used) : k \notin used /\ \A q \in 0..(k - 1) : q \in used
Greedy(nei) == FoldTo(LAMBDA acc, x : Append(acc, LeastFree({acc[y + 1] : y \in {z \in nei[x] : z + 1 < x}})), <<>>, Len(nei))
MaxOf(q) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, -1, q)
=============================================================================
