------------------------------- MODULE SerMC -------------------------------
(* Two values of types of a small universe written one after another and read *)
(* back into targets that hold any other values: for all of them.             *)
EXTENDS SerTypes
CONSTANT Deep
T(k, e, n, at) == [k |-> k, e |-> e, n |-> n, at |-> at]
L == T("leaf", <<>>, 0, <<>>)
Seq0(t) == T("seq", <<t>>, 0, <<>>)
Arr(t) == T("arr", <<t>>, 2, <<>>)
Tup(t) == T("tup", <<L, t>>, 0, <<>>)
One(t) == T("cls", <<t, L>>, 0, <<1>>)
Rev(t) == T("cls", <<L, t>>, 0, <<2, 1>>)
Level(ts) == UNION {{Seq0(t), Arr(t), Tup(t), One(t), Rev(t)} : t \in ts}
Types == {L} \cup Level({L}) \cup Level(Level({L}))
Small == IF Deep THEN Types ELSE {L, Seq0(L), One(Seq0(L))}
RECURSIVE Vals(_, _)
Vals(t, d) ==
    CASE t.k = "leaf" -> IF d = 0 THEN {"a"} ELSE {"a", "b"}
      [] t.k = "seq" -> LET s == Vals(t.e[1], d - (IF d > 0 THEN 1 ELSE 0)) IN {<<>>} \cup {<<x>> : x \in s} \cup (IF d > 0 THEN {<<x, y>> : x \in s, y \in s} ELSE {})
      [] t.k = "arr" -> LET s == Vals(t.e[1], d - (IF d > 0 THEN 1 ELSE 0)) IN {<<x, y>> : x \in s, y \in s}
      [] OTHER -> {<<x, y>> : x \in Vals(t.e[1], IF d > 0 THEN d - 1 ELSE 0), y \in Vals(t.e[2], IF d > 0 THEN d - 1 ELSE 0)}
VARIABLES t1, t2, v1, v2, o1, o2
vars == <<t1, t2, v1, v2, o1, o2>>
Init == \/ /\ t1 \in Types /\ t2 \in Small
           /\ v1 \in Vals(t1, 1) /\ v2 \in Vals(t2, 1) /\ o1 \in Vals(t1, 1) /\ o2 \in Vals(t2, 0)
        \/ /\ t1 \in {L} \cup Level({L}) /\ t2 = L
           /\ v1 \in Vals(t1, 2) /\ v2 = "b" /\ o1 \in Vals(t1, 2) /\ o2 = "a"
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Tape == Encode(t1, v1) \o Encode(t2, v2)
RoundTrip == LET a == Decode(t1, Tape, 1, o1)
                 b == Decode(t2, Tape, a.p, o2)
             IN Same(t1, a.v, v1) /\ Same(t2, b.v, v2) /\ a.p = Len(Encode(t1, v1)) + 1 /\ b.p = Len(Tape) + 1 /\ Kept(t1, o1, a.v) /\ Kept(t2, o2, b.v)
=============================================================================
