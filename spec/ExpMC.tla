------------------------------- MODULE ExpMC -------------------------------
(* The rendering tells values apart and loses nothing: for pairs of values of *)
(* all types of a small universe, printed with and without bound attributes.  *)
EXTENDS ExpRender
CONSTANT Deep
T(k, e) == [k |-> k, e |-> e, c |-> "", at |-> <<>>, nm |-> <<>>]
C(c, e, at, nm) == [k |-> "cls", e |-> e, c |-> c, at |-> at, nm |-> nm]
L == T("leaf", <<>>)
Level(ts) == UNION {{T("seq", <<t>>), T("arr", <<t>>), T("tup", <<L, t>>), T("tup", <<t, T("seq", <<L>>)>>), T("pair", <<t, L>>), C("A", <<t, L>>, <<2, 1>>, <<"x", "y">>), C("B", <<L, t>>, <<2>>, <<"x">>)} : t \in ts}
Types == {L, T("tup", <<>>)} \cup Level({L}) \cup Level(Level({L})) \cup (IF Deep THEN Level(Level(Level({L}))) ELSE {})
Binds == {<<>>, <<[c |-> "A", at |-> <<1>>, nm |-> <<"z">>]>>, <<[c |-> "B", at |-> <<1, 2>>, nm |-> <<"p", "q">>], [c |-> "A", at |-> <<1, 2>>, nm |-> <<"x", "y">>], [c |-> "B", at |-> <<2>>, nm |-> <<"z">>]>>}
RECURSIVE Vals(_, _)
Sub(d) == IF d > 0 THEN d - 1 ELSE 0
Vals(t, d) ==
    CASE t.k = "leaf" -> IF d = 0 THEN {"a"} ELSE {"a", "b"}
      [] t.k = "seq" -> LET s == Vals(t.e[1], Sub(d)) IN {<<>>} \cup {<<x>> : x \in s} \cup (IF d > 0 THEN {<<x, y>> : x \in s, y \in s} ELSE {})
      [] t.k = "arr" -> LET s == Vals(t.e[1], Sub(d)) IN {<<x, y>> : x \in s, y \in s}
      [] t.e = <<>> -> {<<>>}
      [] OTHER -> {<<x, y>> : x \in Vals(t.e[1], Sub(d)), y \in Vals(t.e[2], Sub(d))}
VARIABLES t, B, v, w
vars == <<t, B, v, w>>
Init == /\ t \in Types /\ B \in Binds
        /\ LET S == Vals(t, 2) IN v \in S /\ w \in S
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Apart == (Render(t, v, B) = Render(t, w, B)) <=> Alike(t, v, w, B)
Count(s, S) == Cardinality({j \in DOMAIN s : s[j] \in S})
Whole == LET r == Render(t, v, B) IN Count(r, {"a", "b"}) = Leaves(t, v, B) /\ Count(r, {"["}) = Count(r, {"]"}) /\ Count(r, {"{"}) = Count(r, {"}"})
=============================================================================
