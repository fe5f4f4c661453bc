------------------------------ MODULE VecGen ------------------------------
(* Histories of vector operations, and facts about them.                      *)
EXTENDS VecOps, Json
CONSTANTS Depth, Dims, KindSet, Weak, Small
VARIABLES d, k, s, hist, prev
vars == <<d, k, s, hist, prev>>
V0(dd, kk) == <<[j \in 1..dd |-> IF kk = "i" THEN <<3 * j - 5, 0>> ELSE Norm(6 * j - 7, 1)], [j \in 1..dd |-> <<(j * j) - 3, 0>>], [j \in 1..dd |-> Zero]>>
Init == d \in Dims /\ k \in KindSet /\ s = V0(d, k) /\ hist = <<>> /\ prev = s
Menu == IF k = "i" THEN {<<3, 0>>, <<0 - 4, 0>>} ELSE {<<3, 2>>, <<0 - 4, 0>>}
Factors == {<<2, 0, "i">>, <<1, 1, "r">>} \cup (IF Small THEN {} ELSE {<<0 - 4, 0, "i">>, <<0 - 4, 0, "r">>, <<8, 0, "r">>})
\* coordinates the code may divide by exactly
Divides(x) == x[1] # 0 /\ (k = "i" \/ Abs(x[1]) \in {1, 2, 4, 8, 16, 32})
R == {1, 2, 3}
Ops == {<<"init", 3, w, SubSeq(<<<<7, 0>>, <<0 - 2, 0>>, <<5, 0>>, <<9, 0>>, <<1, 0>>, <<4, 0>>>>, 1, m)>> : w \in {0, 1, 2}, m \in 0..(d + 1)}
       \cup {<<"put", 1, j, x>> : j \in 1..d, x \in Menu}
       \cup {<<"bin", 3, o, a, b>> : o \in {"+", "-"}, a \in R, b \in R}
       \cup {<<"cmp", a, o, b>> : o \in {"+", "-"}, a \in {1, 2}, b \in R}
       \cup {<<"scale", 3, o, a, <<x[1], x[2]>>, x[3]>> : o \in {"*", "/"}, a \in {1, 2}, x \in Factors}
       \cup {<<"left", 3, a, x>> : a \in {1, 2}, x \in {<<2, 0>>, <<0 - 3, 0>>}}
       \cup {<<"scaleby", 2, o, <<x[1], x[2]>>, x[3]>> : o \in {"*", "/"}, x \in Factors}
       \cup {<<"own", 1, "*", j>> : j \in 1..d} \cup {<<"own", 1, "/", j>> : j \in {y \in 1..d : Divides(s[1][y])}}
       \cup (IF d = 3 THEN {<<"cross", 3, a, b>> : a \in R, b \in R} ELSE {})
       \cup {<<"dot", a, b>> : a \in R, b \in {1, 2}} \cup {<<"sos", a>> : a \in R} \cup {<<"eq", a, b>> : a \in R, b \in R} \cup {<<"norm", a>> : a \in R}
       \cup {<<"wide", x[1], x[2], x[3]>> : x \in {y \in {<<1, 2, 2>>, <<2, 1, 3>>, <<3, 3, 1>>, <<1, 3, 2>>} : \A a \in {1, 2, 3} : \A j \in 1..d : Abs(s[y[a]][j][1]) < 30 /\ s[y[a]][j][2] <= 1 /\ LessN(Dot(s[y[1]], s[y[3]]), <<64, 0>>) /\ LessN(<<0 - 64, 0>>, Dot(s[y[1]], s[y[3]]))}}
\* the weakened design: initial values replace only the coordinates they name; the vector product turns the other way
Step(op) == CASE Weak = 1 /\ op[1] = "init" -> [s EXCEPT ![3] = [j \in 1..d |-> IF j <= Len(op[4]) THEN op[4][j] ELSE s[3][j]]]
              [] Weak = 2 /\ op[1] = "own" -> [s EXCEPT ![1] = FoldLeft(LAMBDA v, j : [v EXCEPT ![j] = Conv(k, BinK(k, k, op[3], v[j], v[op[4]]))], s[1], [j \in 1..d |-> j])]
              [] OTHER -> DoV(k, s, op)
Bounded(x) == \A a \in R : \A j \in 1..d : Abs(x[a][j][1]) < 2048 /\ x[a][j][2] <= 6
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : s' = Step(op) /\ hist' = Append(hist, op)
        /\ Bounded(s') /\ prev' = s /\ UNCHANGED <<d, k>>
Spec == Init /\ [][Next]_vars
last == IF hist = <<>> THEN <<"none">> ELSE hist[Len(hist)]
VIEWOF == <<d, k, s, prev, last>>
\* ---- facts
Neg(v) == [j \in DOMAIN v |-> <<0 - v[j][1], v[j][2]>>]
Dead == [j \in 1..d |-> Zero]
InitZeros == last[1] = "init" => \A j \in 1..d : s[3][j] = IF j <= Len(last[4]) THEN last[4][j] ELSE Zero
AddSub == Memb(k, "-", Memb(k, "+", s[1], s[2]), s[2]) = s[1]
Symmetric == Dot(s[1], s[2]) = Dot(s[2], s[1])
SmallV(v) == \A j \in 1..d : Abs(v[j][1]) < 60 /\ v[j][2] <= 1
Cauchy == SmallV(s[1]) /\ SmallV(s[2]) => LET a == Dot(s[1], s[1]) b == Dot(s[2], s[2]) c == Dot(s[1], s[2]) IN ~LessN(BinN("*", a, b), BinN("*", c, c))
Crossed == d = 3 /\ last[1] = "cross" /\ SmallV(prev[last[3]]) /\ SmallV(prev[last[4]]) =>
    LET a == prev[last[3]] b == prev[last[4]] c == s[3] IN
    /\ Dot(a, c) = Zero /\ Dot(b, c) = Zero
    /\ BinN("+", Dot(c, c), BinN("*", Dot(a, b), Dot(a, b))) = BinN("*", Dot(a, a), Dot(b, b))
\* the scalar is the one before the operation
OwnScalar == last[1] = "own" => \A j \in 1..d : s[1][j] = Conv(k, BinK(k, k, last[3], prev[1][j], prev[1][last[4]]))
Emitted == hist = <<>> \/ (Depth > 4 /\ Len(hist) < Depth) \/ PrintT(ToJson([d |-> d, k |-> k, ops |-> hist]))
=============================================================================
