---------------------------- MODULE DataContGen ----------------------------
(* Histories of two containers of every layout; every operation from every    *)
(* state reached within Depth steps, the facts about the operations.          *)
EXTENDS DataCont, TLC, Json, FiniteSets
CONSTANTS Lays, Depth, Meshes, Weak
VARIABLES l, s, hist, prev
vars == <<l, s, hist, prev>>
lay == Layout(l)
P == DOMAIN lay.dims
None == <<>>
Init == l \in Lays /\ s = <<EmptyC(Layout(l)), EmptyC(Layout(l))>> /\ hist = <<>> /\ prev = s
v0 == 10 * Len(hist) + 11
Pairs == {1, 2} \X {1, 2}
FS == IF lay.d = 0 THEN {} ELSE {[k \in 1..(lay.d + 2) |-> (k * e) % 4] : e \in {1, 3}}
Ops == IF l = "J" THEN {<<"res", a, p, n, v0>> : a \in {1, 2}, p \in {1, 3, 8}, n \in {0, 2}} \cup {<<"asg", x[1], x[2]>> : x \in Pairs}
       ELSE
       {<<"def", 1>>} \cup {<<n, a, m>> : n \in {"ctor", "am"}, a \in {1, 2}, m \in Meshes}
       \cup {<<n, a, m, v0>> : n \in {"ctori", "ami"}, a \in {1, 2}, m \in Meshes}
       \cup (IF lay.tup THEN {} ELSE {<<"ctors", 1, m>> : m \in Meshes} \cup {<<"ctorsi", 1, m, v0>> : m \in Meshes}
                \cup {<<"af", 1>> \o f : f \in FS} \cup {<<"afi", 2, v0>> \o f : f \in FS})
       \cup {<<n, x[1], x[2]>> : n \in {"ac", "asg", "copyc"}, x \in Pairs}
       \cup {<<n, x[1], x[2]>> : n \in {"movec", "mova"}, x \in {<<1, 2>>, <<2, 1>>}}
       \cup {<<"swap", 1, 2>>}
       \cup {<<"aci", x[1], x[2], v0>> : x \in Pairs}
       \cup {<<"set", a, 1, p, k, v0>> : a \in {1, 2}, p \in P, k \in {0, 3}}
       \cup UNION {UNION {{<<"set", a, w, p, k, v0>> : w \in {0, 2, 3, 4, 5, 6}, k \in {0, Len(s[a][p]) - 1}} :
                          p \in {q \in P : Len(s[a][q]) > 0 /\ Len(s[a][PosOf(lay.dims, lay.dims[q])]) >= Len(s[a][q])}} : a \in {1, 2}}
       \cup {<<"res", a, p, n, v0>> : a \in {1, 2}, p \in P, n \in {0, 3}}
       \cup {<<"tset", a, p, 2, v0>> : a \in {1, 2}, p \in P}
\* the weakened design: positions of one dimension share the array
Step(op) == LET x == Do(lay, s, op) IN
    IF Weak /\ op[1] = "set" /\ x.err = 0 THEN
        [x EXCEPT !.s = [s EXCEPT ![op[2]] = [p \in P |-> IF lay.dims[p] = lay.dims[op[4]] /\ Len(s[op[2]][p]) > op[5] THEN [s[op[2]][p] EXCEPT ![op[5] + 1] = op[6]] ELSE s[op[2]][p]]]]
    ELSE x
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : s' = Step(op).s /\ hist' = Append(hist, op)
        /\ prev' = s /\ l' = l
Spec == Init /\ [][Next]_vars
lastop == IF hist = <<>> THEN <<"none", 1>> ELSE hist[Len(hist)]
View == <<l, s, prev, IF hist = <<>> THEN <<>> ELSE lastop>>

\* ---- facts
\* a container allocated for a mesh has the sizes of the mesh
SizesFollow == lastop[1] \in {"ctor", "ctori", "ctors", "ctorsi", "am", "ami"} =>
    \A p \in P : Len(s[lastop[2]][p]) = MeshSizes[lastop[3]][lay.dims[p] + 1]
\* the entries that were there survive any allocation, what is added has the given value
Survive == lastop[1] \in {"am", "ami", "af", "afi", "ac", "aci", "res"} => LET a == lastop[2] IN
    \A p \in P : \A k \in DOMAIN s[a][p] : k <= Len(prev[a][p]) => s[a][p][k] = prev[a][p][k]
\* an operation touches nothing but its container
Apart == lastop[1] \notin {"movec", "mova", "swap"} => s[3 - lastop[2]] = prev[3 - lastop[2]]
\* setting one value changes at most one entry
OneEntry == lastop[1] = "set" =>
    Cardinality({x \in {<<a, p, k>> : a \in {1, 2}, p \in P, k \in 1..5} : x[3] <= Len(s[x[1]][x[2]]) /\ s[x[1]][x[2]][x[3]] # prev[x[1]][x[2]][x[3]]}) <= 1
    /\ \A a \in {1, 2} : \A p \in P : Len(s[a][p]) = Len(prev[a][p])
CopyEqual == lastop[1] \in {"asg", "copyc"} => s[1] = s[2] \/ lastop[2] = lastop[3]
Shown == hist = <<>> \/ (Depth > 5 /\ Len(hist) < Depth) \/ PrintT(ToJson([l |-> l, ops |-> hist]))
=============================================================================
