----------------------------- MODULE ArithGen -----------------------------
(* Statements and histories over classes with arithmetic traits.              *)
EXTENDS Arith, Json, IOUtils
CONSTANTS Depth, MaxToks, Cats, Full, Weak
\* the classes: [kinds, ops, prod (objects multiply), funs, top (values usable
\* as scalars), sym, agg]
Cls == JsonDeserialize(IOEnv.CLASSES)
VARIABLES c, vars, toks, types, hist, prev
all == <<c, vars, toks, types, hist, prev>>
K == Cls[c].kinds
Start == [v \in 1..3 |-> [j \in DOMAIN K |-> IF K[j] = "S" THEN "x" \o ToString(v) \o ToString(j) ELSE
             Norm(CASE K[j] = "u" -> 4 * (2 + v * 5 + j * 3) [] K[j] = "i" -> 4 * (IF j = v THEN 7 - 3 * v ELSE v * j - 9) [] OTHER -> (v * 7 - 11) * j + 1, 2)]]
Init == c \in DOMAIN Cls /\ vars = Start /\ toks = <<>> /\ types = <<>> /\ hist = <<>> /\ prev = Start
Scalars == {<<"s", 2, 0, "2", "int">>, <<"s", 1, 1, "0.5", "double">>} \cup (IF Full THEN {<<"s", 0 - 3, 0, "-3", "int">>, <<"s", 5, 1, "2.5", "float">>} ELSE {})
ObjToks == {<<"v", i, cat>> : i \in IF Full THEN {1, 2, 3} ELSE {1, 2}, cat \in Cats}
AttToks == {<<"a", i, Cls[c].top[j]>> : i \in (IF Full THEN {1, 2} ELSE {1}), j \in DOMAIN Cls[c].top}
\* operators by the types of their operands ("o" object, "s" scalar, "z" integer scalar, for powers, "y" a value
\* of the type of an attribute, which need not commute)
BinOps(a, b) == CASE a = "o" /\ b = "o" -> {"+", "-"} \cup (IF Cls[c].prod THEN {"*", "/"} ELSE {}) [] a = "o" -> {"*", "/"} \cup (IF b = "z" THEN {"pow"} ELSE {}) [] b = "o" /\ a # "y" -> {"*"} \cup (IF a = "z" /\ Cls[c].sym THEN {"pow"} ELSE {}) [] OTHER -> {}
n == Len(types)
Expr ==
    /\ Len(toks) < MaxToks
    /\ \/ \E t \in ObjToks : toks' = Append(toks, t) /\ types' = Append(types, "o")
       \/ \E t \in Scalars : toks' = Append(toks, t) /\ types' = Append(types, IF t[3] = 0 /\ t[2] > 0 THEN "z" ELSE "s")
       \/ \E t \in AttToks : toks' = Append(toks, t) /\ types' = Append(types, "y")
       \/ /\ n >= 2
          /\ \E op \in BinOps(types[n - 1], types[n]) \cap Range(Cls[c].ops) : toks' = Append(toks, <<"b", op>>)
          /\ types' = Append(SubSeq(types, 1, n - 2), "o")
       \/ /\ n >= 1 /\ types[n] = "o"
          /\ \E f \in Range(Cls[c].funs) : toks' = Append(toks, <<"u", f>>)
          /\ types' = types
    /\ UNCHANGED <<c, vars, hist, prev>>
\* the weakened design: compound scaling reads the scalar again for every attribute, from the changed object
Bad(r) == IF Weak /\ r.st = "cmp" /\ Len(r.toks) = 1 /\ r.toks[1][1] = "a" /\ r.toks[1][2] = r.dst
          THEN LET f(v, j) == [v EXCEPT ![j] = BinO(K, r.op, Obj(K, v), Scal(K[r.toks[1][3]], v[r.toks[1][3]], v[r.toks[1][3]])).v[j]]
                   x == FoldLeft(f, vars[r.dst], [j \in DOMAIN K |-> j])
               IN [res |-> x, vars |-> [vars EXCEPT ![r.dst] = x]]
          ELSE Exec(K, vars, r)
Stmts == LET ty == types[1] IN
         (IF ty = "o" THEN {[st |-> "set", dst |-> 3, op |-> "", toks |-> toks]} \cup {[st |-> "cmp", dst |-> d, op |-> op, toks |-> toks] : d \in {1, 3}, op \in ({"+", "-"} \cup (IF Cls[c].prod THEN {"*"} ELSE {})) \cap Range(Cls[c].ops)}
                           \cup {[st |-> "agg", dst |-> 0, op |-> op, toks |-> toks] : op \in Range(Cls[c].agg)}
          ELSE {[st |-> "cmp", dst |-> d, op |-> op, toks |-> toks] : d \in {1, 2}, op \in {"*"} \cap Range(Cls[c].ops)})
Statement ==
    /\ n = 1 /\ Len(hist) < Depth
    /\ \E r \in Stmts : LET x == IF Cls[c].sym THEN Bad(r) ELSE [vars |-> vars] IN vars' = x.vars /\ hist' = Append(hist, r)
    /\ prev' = vars /\ toks' = <<>> /\ types' = <<>> /\ UNCHANGED c
Next == (Len(hist) < Depth /\ Expr) \/ Statement
\* not too many open operands
Bound == n <= 3 /\ (types # <<>> /\ n + Len(toks) > 0 => n - 1 <= MaxToks - Len(toks))
Spec == Init /\ [][Next]_all
\* ---- properties of the operations (symbolic classes: for all values)
last == hist[Len(hist)]
Fresh == hist # <<>> /\ toks = <<>> /\ Cls[c].sym
\* the values are the ones of the same operation on each attribute alone
Proj(vs, j) == [v \in DOMAIN vs |-> <<vs[v][j]>>]
ProjTok(t, j) == IF t[1] = "a" THEN <<"s", 0, 0, prev[t[2]][t[3]], "sym">> ELSE t
Memberwise == Fresh => \A j \in DOMAIN K :
    Exec(<<K[j]>>, Proj(prev, j), [last EXCEPT !.toks = [k \in DOMAIN last.toks |-> ProjTok(last.toks[k], j)]]).vars = Proj(vars, j)
OperandsStay == Fresh => \A v \in 1..3 : v # last.dst => vars[v] = prev[v]
Emitted == (hist # <<>> /\ toks = <<>> /\ (Depth = 1 \/ Len(hist) = Depth)) => PrintT(ToJson([c |-> c, h |-> hist]))
=============================================================================
