----------------------------- MODULE ExpRender -----------------------------
(* The text of a printed variable, as a sequence of tokens.                   *)
(*   type   [k, e, c, at, nm]                                                 *)
(*     leaf   numbers, truth values, text: the value is its token             *)
(*     seq, arr   all elements of e[1] in order (the elements of a map are    *)
(*            pairs)                                                          *)
(*     pair, tup   one of each of e                                           *)
(*     cls    class c with members of types e; the members at[1], at[2], ...  *)
(*            are its attributes, named nm[1], nm[2], ...                     *)
(*     hook   a class that prints itself (all its members)                    *)
(* B: attributes bound by the caller [c, at, nm]; the first of them for a     *)
(* class replaces the attributes the class has by default, at any depth.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANT Weak
Attr(t, B) == LET own == {j \in DOMAIN B : B[j].c = t.c} IN
              IF own = {} THEN [at |-> t.at, nm |-> t.nm] ELSE LET j == CHOOSE j \in own : \A q \in own : j <= q IN [at |-> B[j].at, nm |-> B[j].nm]
Listed(s) == LET f(a, j) == IF j = 1 THEN s[1] ELSE a \o <<",">> \o s[j] IN FoldLeft(f, <<>>, [j \in DOMAIN s |-> j])
Brackets(s) == IF Weak = "nobracket" THEN s ELSE <<"[">> \o s \o <<"]">>
Pass(B) == IF Weak = "shallow" THEN <<>> ELSE B
RECURSIVE Render(_, _, _)
Render(t, v, B) ==
    CASE t.k \in {"leaf", "any"} -> <<v>>
      [] t.k \in {"seq", "arr"} -> Brackets(Listed([j \in DOMAIN v |-> Render(t.e[1], v[j], Pass(B))]))
      [] t.k = "tup" -> Brackets(Listed([j \in DOMAIN v |-> Render(t.e[j], v[j], B)]))
      [] t.k = "pair" -> <<"{">> \o Render(t.e[1], v[1], B) \o <<":">> \o Render(t.e[2], v[2], B) \o <<"}">>
      [] t.k = "cls" -> LET a == Attr(t, B) IN
                        <<"{">> \o Listed([j \in DOMAIN a.at |-> <<a.nm[j], ":">> \o Render(t.e[a.at[j]], v[a.at[j]], B)]) \o <<"}">>
      [] OTHER -> <<"custom", "<">> \o FlattenSeq([j \in DOMAIN v |-> Render(t.e[j], v[j], <<>>)]) \o <<">">>
\* equal as far as the printed attributes speak about the values
RECURSIVE Alike(_, _, _, _)
Alike(t, v, w, B) ==
    CASE t.k = "leaf" -> v = w
      [] t.k \in {"seq", "arr"} -> Len(v) = Len(w) /\ \A j \in DOMAIN v : Alike(t.e[1], v[j], w[j], B)
      [] t.k \in {"tup", "pair"} -> \A j \in DOMAIN t.e : Alike(t.e[j], v[j], w[j], B)
      [] t.k = "cls" -> LET a == Attr(t, B).at IN \A j \in DOMAIN a : Alike(t.e[a[j]], v[a[j]], w[a[j]], B)
      [] OTHER -> \A j \in DOMAIN t.e : Alike(t.e[j], v[j], w[j], <<>>)
\* the number of leaves that are printed
RECURSIVE Leaves(_, _, _)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Leaves(t, v, B) ==
    CASE t.k = "leaf" -> 1
      [] t.k \in {"seq", "arr"} -> Sum([j \in DOMAIN v |-> Leaves(t.e[1], v[j], B)])
      [] t.k \in {"tup", "pair"} -> Sum([j \in DOMAIN t.e |-> Leaves(t.e[j], v[j], B)])
      [] t.k = "cls" -> LET a == Attr(t, B).at IN Sum([j \in DOMAIN a |-> Leaves(t.e[a[j]], v[a[j]], B)])
      [] OTHER -> Sum([j \in DOMAIN t.e |-> Leaves(t.e[j], v[j], <<>>)])
=============================================================================
