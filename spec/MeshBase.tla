------------------------------ MODULE MeshBase ------------------------------
(* The abstract state of an unstructured mesh and its basic notions.          *)
(* A mesh is a record (all element indices are 0-based as in the code):       *)
(*   dim, v (points), e (pairs of vertices), s (s[d-1]: for the elements of   *)
(*   dimension d = 2..dim-1 the list of their bounding (d-1)-elements),       *)
(*   l, r, nl, nr (per face: left and right cell, next face in the boundary   *)
(*   walk of the left and right cell; -1 = invalid, -(2+k) = boundary cell k),*)
(*   cb (per cell: a face to start the walk), bc (boundary cells: pairs       *)
(*   <<index, face>>), idx (all elements know their own index).               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NoDup(s) == Cardinality(Range(s)) = Len(s)
Idx(s) == 0 .. (Len(s) - 1)
At(s, k) == s[k + 1]
\* cyclic pairs of a vertex cycle, as a sequence and as a set of unordered pairs
CycPairs(c) == [k \in 1..Len(c) |-> {c[k], c[(k % Len(c)) + 1]}]
CycSet(c) == Range(CycPairs(c))

\* Folding over 1..n (FoldLeft evaluates eagerly)
FoldTo(Op(_, _), init, n) == FoldLeft(Op, init, [k \in 1..n |-> k])

NElem(m, d) == IF d = 0 THEN Len(m.v) ELSE IF d = 1 THEN Len(m.e)
               ELSE IF d < m.dim THEN Len(m.s[d - 1]) ELSE Len(m.cb)
Faces(m) == IF m.dim = 2 THEN m.e ELSE m.s[m.dim - 2]

EmptyMesh(d) == [dim |-> d, v |-> <<>>, e |-> <<>>, s |-> [k \in 1..(d - 2) |-> <<>>],
                 l |-> <<>>, r |-> <<>>, nl |-> <<>>, nr |-> <<>>, cb |-> <<>>, bc |-> <<>>, idx |-> TRUE]

\* ---- the boundary walk of a cell ---------------------------------------------
\* successor of face f in the walk of cell c; -5 if the face does not know the cell
Succ(m, f, c) == IF At(m.r, f) = c THEN At(m.nr, f)
                 ELSE IF At(m.l, f) = c THEN At(m.nl, f) ELSE -5
RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(m, c, f, acc) ==
    IF f \notin Idx(m.l) \/ Len(acc) > Len(m.l) THEN <<-1>>
    ELSE LET nx == Succ(m, f, c) IN
         IF nx = At(m.cb, c) THEN Append(acc, f) ELSE WalkFrom(m, c, nx, Append(acc, f))
\* the faces of cell c in the order of its walk; <<-1>> if the walk is broken
Walk(m, c) == WalkFrom(m, c, At(m.cb, c), <<>>)

\* directly bounding elements of element x of dimension d
Bound(m, d, x) == IF d = 1 THEN Range(At(m.e, x))
                  ELSE IF d < m.dim THEN Range(At(m.s[d - 1], x))
                  ELSE Range(Walk(m, x))

\* shape of a record: everything refers to existing elements
ShapeOK(m) ==
    /\ Len(m.s) = m.dim - 2
    /\ \A k \in DOMAIN m.e : Len(m.e[k]) = 2 /\ Range(m.e[k]) \subseteq Idx(m.v)
    /\ \A d \in 2..(m.dim - 1) : \A k \in DOMAIN m.s[d - 1] :
          Range(m.s[d - 1][k]) \subseteq 0..(NElem(m, d - 1) - 1)
    /\ LET n == Len(Faces(m)) IN Len(m.l) = n /\ Len(m.r) = n /\ Len(m.nl) = n /\ Len(m.nr) = n
    /\ \A k \in DOMAIN m.cb : m.cb[k] \in Idx(m.l)
    /\ \A k \in DOMAIN m.l : m.l[k] < Len(m.cb) /\ m.r[k] < Len(m.cb)

\* consistency of a mesh: walks close, visit exactly the faces that name the cell, once
WellFormed(m) ==
    /\ m.idx /\ ShapeOK(m)
    /\ \A c \in Idx(m.cb) : LET w == Walk(m, c) IN
          /\ w # <<-1>> /\ NoDup(w)
          /\ Range(w) = {f \in Idx(m.l) : At(m.l, f) = c \/ At(m.r, f) = c}
    /\ \A f \in Idx(m.l) : At(m.l, f) = At(m.r, f) => At(m.l, f) = -1
    /\ \A k \in DOMAIN m.e : m.e[k][1] # m.e[k][2]
=============================================================================
