----------------------------- MODULE DataCont -----------------------------
(* Containers of data mapped to the elements of a mesh. A layout is the list  *)
(* of mapped dimensions, one array of values per position; a container is the *)
(* list of its arrays. Values are numbers, 0 is the value-initialised one.    *)
(* Histories work on two containers of one type; meshes are given by their    *)
(* numbers of elements per dimension.                                         *)
EXTENDS Integers, Sequences, SequencesExt

\* layouts: mesh dimension, mapped dimensions, own type per position
Layout(l) ==
    CASE l = "A" -> [d |-> 3, dims |-> <<3>>, tup |-> FALSE]
      [] l = "B" -> [d |-> 3, dims |-> <<0, 1, 2, 3>>, tup |-> FALSE]
      [] l = "C" -> [d |-> 3, dims |-> <<3, 3, 1>>, tup |-> FALSE]
      [] l = "D" -> [d |-> 3, dims |-> <<2, 0, 3, 3>>, tup |-> TRUE]
      [] l = "E" -> [d |-> 2, dims |-> <<2, 0>>, tup |-> TRUE]
      [] l = "F" -> [d |-> 2, dims |-> <<2, 1, 2, 0>>, tup |-> FALSE]
      [] l = "G" -> [d |-> 3, dims |-> <<1, 3>>, tup |-> FALSE]
      [] l = "H" -> [d |-> 4, dims |-> <<4, 2, 0>>, tup |-> FALSE]
      [] l = "I" -> [d |-> 2, dims |-> <<1>>, tup |-> TRUE]
      [] l = "J" -> [d |-> 0, dims |-> <<0, 10, 100, 999, 7, 205, 42, 30>>, tup |-> FALSE]
\* the dimensions of the container of another type and layout used as a source of sizes
Foreign(d) == [k \in 1..(d + 2) |-> IF k = d + 2 THEN (IF d = 0 THEN 0 ELSE 1) ELSE d + 1 - k]
\* numbers of elements of the meshes, by dimension 0..4
MeshSizes == << <<2, 1, 1, 1, 1>>, <<1, 3, 0, 2, 2>>, <<0, 0, 0, 0, 0>>, <<3, 2, 4, 1, 3>> >>

PosOf(dims, dim) == CHOOSE p \in DOMAIN dims : dims[p] = dim /\ \A q \in DOMAIN dims : dims[q] = dim => p <= q

Resized(s, n, v) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE v]
InitVal(lay, v, p) == IF lay.tup THEN v + p - 1 ELSE v
\* the arrays get the given sizes (by position)
Alloc(lay, c, size, vals) == [p \in DOMAIN lay.dims |-> Resized(c[p], size[p], vals[p])]
Zeros(lay) == [p \in DOMAIN lay.dims |-> 0]
Vals(lay, v) == [p \in DOMAIN lay.dims |-> InitVal(lay, v, p)]
MeshSize(lay, m) == [p \in DOMAIN lay.dims |-> MeshSizes[m][lay.dims[p] + 1]]
ForeignSize(lay, fs) == [p \in DOMAIN lay.dims |-> fs[PosOf(Foreign(lay.d), lay.dims[p])]]
SameSize(lay, c) == [p \in DOMAIN lay.dims |-> Len(c[PosOf(lay.dims, lay.dims[p])])]
EmptyC(lay) == [p \in DOMAIN lay.dims |-> <<>>]

\* the position a value set by the way w to the position p goes to: ways 0..3 select by dimension
Target(lay, w, p) == IF w <= 3 THEN PosOf(lay.dims, lay.dims[p]) ELSE p

\* Result of an operation on the pair of containers s (indexed 1, 2); a, b are 1 or 2.
R(s, err) == [s |-> s, err |-> err]
Do(lay, s, op) ==
    LET a == op[2] IN
    CASE op[1] = "def" -> R([s EXCEPT ![a] = EmptyC(lay)], 0)
      [] op[1] \in {"ctor", "ctors"} -> R([s EXCEPT ![a] = Alloc(lay, EmptyC(lay), MeshSize(lay, op[3]), Zeros(lay))], 0)
      [] op[1] \in {"ctori", "ctorsi"} -> R([s EXCEPT ![a] = Alloc(lay, EmptyC(lay), MeshSize(lay, op[3]), Vals(lay, op[4]))], 0)
      [] op[1] = "am" -> R([s EXCEPT ![a] = Alloc(lay, s[a], MeshSize(lay, op[3]), Zeros(lay))], 0)
      [] op[1] = "ami" -> R([s EXCEPT ![a] = Alloc(lay, s[a], MeshSize(lay, op[3]), Vals(lay, op[4]))], 0)
      [] op[1] = "af" -> R([s EXCEPT ![a] = Alloc(lay, s[a], ForeignSize(lay, SubSeq(op, 3, Len(op))), Zeros(lay))], 0)
      [] op[1] = "afi" -> R([s EXCEPT ![a] = Alloc(lay, s[a], ForeignSize(lay, SubSeq(op, 4, Len(op))), Vals(lay, op[3]))], 0)
      [] op[1] = "ac" -> R([s EXCEPT ![a] = Alloc(lay, s[a], SameSize(lay, s[op[3]]), Zeros(lay))], 0)
      [] op[1] = "aci" -> R([s EXCEPT ![a] = Alloc(lay, s[a], SameSize(lay, s[op[3]]), Vals(lay, op[4]))], 0)
      [] op[1] = "set" -> LET p == Target(lay, op[3], op[4]) IN          \* op: way, position, index, value
            IF op[5] < Len(s[a][p]) THEN R([s EXCEPT ![a][p][op[5] + 1] = op[6]], 0) ELSE R(s, 1)
      [] op[1] = "res" -> R([s EXCEPT ![a][op[3]] = Resized(s[a][op[3]], op[4], op[5])], 0)
      [] op[1] = "tset" -> R([s EXCEPT ![a][op[3]] = [k \in 1..op[4] |-> op[5] + k - 1]], 0)
      [] op[1] \in {"copyc", "asg"} -> R([s EXCEPT ![a] = s[op[3]]], 0)
      \* a container moved from is set to an empty one by the caller
      [] op[1] \in {"movec", "mova"} -> R([s EXCEPT ![a] = s[op[3]], ![op[3]] = EmptyC(lay)], 0)
      [] op[1] = "swap" -> R(<<s[2], s[1]>>, 0)
=============================================================================
