----------------------------- MODULE SerTypes -----------------------------
(* Values of the serializable types, what is written for them and what        *)
(* reading it makes of a target.                                              *)
(*   type   [k, e, n, at]                                                     *)
(*     leaf    numbers, enumerations, text (a value is a string)              *)
(*     seq     resizable sequence of e[1]; also sets and maps, as the         *)
(*             sequence of their elements in order (a map's elements are      *)
(*             tuples of two): reading replaces the content                   *)
(*     arr     n elements of e[1]                                             *)
(*     tup     pairs and tuples, mesh data containers: one of each of e       *)
(*     cls     a class with members of types e; the members at[1], at[2], ... *)
(*             are written, in this order; the others are left alone          *)
(* Written data are a sequence of units [n, s]: a number of elements or the   *)
(* value of a leaf.                                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANT Weak
Leaf(s) == [n |-> 0 - 1, s |-> s]
Count(n) == [n |-> n, s |-> ""]
RECURSIVE Encode(_, _)
Encode(t, v) ==
    CASE t.k = "leaf" -> <<Leaf(v)>>
      [] t.k = "seq" -> (IF Weak = "nolength" THEN <<>> ELSE <<Count(Len(v))>>) \o FlattenSeq([j \in DOMAIN v |-> Encode(t.e[1], v[j])])
      [] t.k = "arr" -> <<Count(Len(v))>> \o FlattenSeq([j \in DOMAIN v |-> Encode(t.e[1], v[j])])
      [] t.k = "tup" -> FlattenSeq([j \in DOMAIN v |-> Encode(t.e[j], v[j])])
      [] OTHER -> FlattenSeq([j \in DOMAIN t.at |-> Encode(t.e[t.at[j]], v[t.at[j]])])
RECURSIVE Blank(_)
Blank(t) ==
    CASE t.k = "leaf" -> "-"
      [] t.k = "seq" -> <<>>
      [] t.k = "arr" -> [j \in 1..t.n |-> Blank(t.e[1])]
      [] OTHER -> [j \in DOMAIN t.e |-> Blank(t.e[j])]
\* reading at position p (the first unread unit) into a target holding old
RECURSIVE Decode(_, _, _, _)
Decode(t, u, p, old) ==
    LET elems(n, keep) ==
            LET f(a, j) == LET d == Decode(t.e[1], u, a.p, IF j \in DOMAIN keep THEN keep[j] ELSE Blank(t.e[1])) IN [v |-> Append(a.v, d.v), p |-> d.p]
            IN FoldLeft(f, [v |-> <<>>, p |-> p + 1], [j \in 1..n |-> j])
    IN
    CASE t.k = "leaf" -> [v |-> IF p \in DOMAIN u THEN u[p].s ELSE "?", p |-> p + 1]
      [] t.k = "seq" -> IF Weak = "nolength"
                        THEN LET f(a, j) == LET d == Decode(t.e[1], u, a.p, old[j]) IN [v |-> Append(a.v, d.v), p |-> d.p]
                             IN FoldLeft(f, [v |-> <<>>, p |-> p], [j \in DOMAIN old |-> j])
                        ELSE LET d == elems(u[p].n, old) IN IF Weak = "noclear" THEN [d EXCEPT !.v = old \o d.v] ELSE d
      [] t.k = "arr" -> elems(u[p].n, old)
      [] t.k = "tup" -> LET f(a, j) == LET d == Decode(t.e[j], u, a.p, old[j]) IN [v |-> Append(a.v, d.v), p |-> d.p]
                        IN FoldLeft(f, [v |-> <<>>, p |-> p], [j \in DOMAIN t.e |-> j])
      [] OTHER -> LET f(a, j) == LET m == t.at[j]
                                      d == Decode(t.e[m], u, a.p, a.v[m])
                                  IN [v |-> [a.v EXCEPT ![m] = d.v], p |-> d.p]
                  IN FoldLeft(f, [v |-> old, p |-> p], [j \in DOMAIN t.at |-> j])
Members(t) == {t.at[j] : j \in DOMAIN t.at}
\* equal as far as the type speaks about the values
RECURSIVE Same(_, _, _)
Same(t, v, w) ==
    CASE t.k = "leaf" -> v = w
      [] t.k \in {"seq", "arr"} -> Len(v) = Len(w) /\ \A j \in DOMAIN v : Same(t.e[1], v[j], w[j])
      [] t.k = "tup" -> \A j \in DOMAIN t.e : Same(t.e[j], v[j], w[j])
      [] OTHER -> \A m \in Members(t) : Same(t.e[m], v[m], w[m])
\* a class read directly keeps its other members
Kept(t, old, new) == t.k = "cls" => \A m \in DOMAIN t.e \ Members(t) : old[m] = new[m]
=============================================================================
