----------------------------- MODULE TraitsRW -----------------------------
(* Traits: named attributes of a class. An object is the list of its cells    *)
(* (numbers); an attribute                                                    *)
(*   [name, acc, cell, len, off]                                              *)
(* shows the cells cell .. cell+len-1, each increased by off; acc is the kind *)
(* of the access it was registered with. A class has registrations:           *)
(*   reg: "D" default, "I" for input and output, "A" for arithmetic, "L"      *)
(*   given explicitly; the latter lists of attributes are absent when empty.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

DirectKinds == {"mem", "reffun", "memref", "lamref"}      \* the attribute can be referred to
ConstKinds == {"mem", "reffun", "memref", "lamref", "getset", "free", "lambda", "bind"}    \* readable in a constant object
Kinds == DirectKinds \cup ConstKinds \cup {"ncget"}

\* the attributes seen through the traits t; the special ones fall back to the default ones
View(reg, t) == IF t \in {"I", "A"} /\ reg[t] = <<>> THEN reg["D"] ELSE reg[t]
Value(o, a) == [k \in 1..a.len |-> o[a.cell + k - 1] + a.off]
SetV(o, a, v) == [c \in DOMAIN o |-> IF c >= a.cell /\ c < a.cell + a.len THEN v[c - a.cell + 1] - a.off ELSE o[c]]

\* the attributes of the nested class (three cells) by its own arithmetic traits: the last and the first cell
NestOrder == <<3, 1>>
\* every attribute of a view in order: what applying a functor to the traits shows
Shown(o, atts) == [k \in DOMAIN atts |-> <<k - 1, atts[k].name, Value(o, atts[k])>>]

\* an operation on the pair of objects s
Do(reg, s, op) ==
    CASE op[1] = "set" -> LET a == View(reg, op[3])[op[4]] IN [s EXCEPT ![op[2]] = SetV(@, a, op[6])]       \* object, traits, attribute, way, value
      \* object, attribute of the arithmetic traits, attribute of the nested class, way, value
      [] op[1] = "path" -> [s EXCEPT ![op[2]][View(reg, "A")[op[3]].cell + NestOrder[op[4]] - 1] = op[6]]
      [] op[1] = "poke" -> [s EXCEPT ![op[2]][op[3]] = op[4]]
      [] op[1] = "app" -> \* a functor adding op[4] to every attribute through the traits op[3], in order
            [s EXCEPT ![op[2]] = FoldLeft(LAMBDA o, a : SetV(o, a, [k \in 1..a.len |-> Value(o, a)[k] + op[4]]), @, View(reg, op[3]))]
      [] op[1] = "copy" -> [s EXCEPT ![op[2]] = s[3 - op[2]]]
      [] op[1] = "none" -> s

\* ways of writing: 0, 1 traits (object, pointer); 2, 3 reference of the attribute (object, pointer);
\* 4, 5 direct (object, pointer); 6 free function get of the arithmetic traits (object), 7 (pointer)
WriteWays(t, a) == {0, 1, 2, 3} \cup (IF a.acc \in DirectKinds THEN {4, 5} ELSE {}) \cup (IF a.acc \in DirectKinds /\ t = "A" THEN {6, 7} ELSE {})

\* ---- selection of traits among bound ones: b is a sequence of <<class, traits>>
Candidates(b, cl) == {k \in DOMAIN b : b[k][1] = cl}
Selected(b, cl, default) == IF Candidates(b, cl) # {} THEN b[CHOOSE k \in Candidates(b, cl) : \A j \in Candidates(b, cl) : k <= j] ELSE default
=============================================================================
