------------------------------ MODULE Arith ------------------------------
(* Classes with arithmetic traits: an object is the list of the values of its *)
(* attributes, those of nested classes in their place. A value is             *)
(*   a term (text) for the symbolic type, which covers all operand values,    *)
(*   <<n, k>>, that is n / 2^k, for the numeric ones.                         *)
(* kinds: for every value "S" symbolic, "i" integer, "u" unsigned, "r" real.  *)
(* A statement is [st, dst, op, toks]; toks is an expression in postfix form: *)
(*   <<"v", i, cat>>  the variable i, as an lvalue, constant, temporary, moved*)
(*   <<"s", n, k, text, type>>  the scalar n / 2^k                            *)
(*   <<"a", i, j>>    the value j of the variable i, as a scalar              *)
(*   <<"b", op>>, <<"u", function>>                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* ---- numbers n / 2^k
P2(k) == 2 ^ k
Norm(n, k) == LET d == CHOOSE d \in 0..k : (n % P2(d) = 0) /\ (d = k \/ n % P2(d + 1) # 0) IN <<n \div P2(d), k - d>>
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Sgn(n) == IF n < 0 THEN 0 - 1 ELSE 1
Trunc(x) == <<Sgn(x[1]) * (Abs(x[1]) \div P2(x[2])), 0>>
Up(x, k) == x[1] * P2(k - x[2])
Mx(a, b) == IF a > b THEN a ELSE b
LessN(x, y) == LET k == Mx(x[2], y[2]) IN Up(x, k) < Up(y, k)
Lg2(n) == CHOOSE k \in 0..30 : P2(k) = n
PowN(x, e) == FoldLeft(LAMBDA a, j : Norm(a[1] * x[1], a[2] + x[2]), <<1, 0>>, [j \in 1..e |-> j])
\* a quotient that is a number of this form; of integers the truncated one
DivN(x, y) == LET g == Sgn(y[1]) * x[1] d == Abs(y[1])
                  \* x / y = (g / d) * 2^(y2 - x2); take out of d its odd part, which divides g
                  e == CHOOSE e \in 0..30 : d % P2(e) = 0 /\ (d \div P2(e)) % 2 = 1
                  q == g \div (d \div P2(e))
              IN IF y[2] >= x[2] + e THEN <<q * P2(y[2] - x[2] - e), 0>> ELSE Norm(q, x[2] + e - y[2])
BinN(op, x, y) == LET k == Mx(x[2], y[2]) IN
    CASE op = "+" -> Norm(Up(x, k) + Up(y, k), k)
      [] op = "-" -> Norm(Up(x, k) - Up(y, k), k)
      [] op = "*" -> Norm(x[1] * y[1], x[2] + y[2])
      [] op = "/" -> DivN(x, y)
      [] op = "pow" -> PowN(x, y[1])
\* integer types divide with truncation
IntKinds == {"i", "u"}
BinK(kx, ky, op, x, y) == IF op = "/" /\ kx \in IntKinds /\ ky \in IntKinds
                          THEN <<Sgn(x[1]) * Sgn(y[1]) * (Abs(x[1]) \div Abs(y[1])), 0>> ELSE BinN(op, x, y)
UnN(f, x) ==
    CASE f = "neg" -> <<0 - x[1], x[2]>>
      [] f = "abs" -> <<Abs(x[1]), x[2]>>
      [] f = "sqrt" -> <<CHOOSE m \in 0..2000 : m * m = x[1], 0>>
      [] f = "cbrt" -> <<CHOOSE m \in (0 - 200)..200 : m * m * m = x[1], 0>>
      [] f = "exp" -> (CASE x = <<0, 0>> -> <<1, 0>>)
      [] f = "log" -> (CASE x = <<1, 0>> -> <<0, 0>>)
      [] f = "log2" -> IF x[1] = 1 THEN <<0 - x[2], 0>> ELSE <<Lg2(x[1]), 0>>
      [] f = "log10" -> <<CHOOSE m \in 0..9 : 10 ^ m = x[1], 0>>

\* ---- one value of the kind k
Conv(k, x) == IF k \in IntKinds THEN Trunc(x) ELSE x
BinS(op, a, b) == IF op = "pow" THEN "pow(" \o a \o "," \o b \o ")" ELSE "(" \o a \o op \o b \o ")"
UnS(f, a) == IF f = "neg" THEN "(-" \o a \o ")" ELSE f \o "(" \o a \o ")"
\* products with a number are written with the number on the right
IsNumber(x) == x.k # "S"
BinV(op, x, y) ==    \* x, y: [k kind, v value, t text]
    IF x.k = "S" \/ y.k = "S"
    THEN IF op = "*" /\ IsNumber(x) THEN BinS(op, y.t, x.t) ELSE BinS(op, x.t, y.t)
    ELSE BinK(x.k, y.k, op, x.v, y.v)

\* ---- stack values: [o object?, k kinds, v values, t texts]
Leaf(z, j) == LET q == IF z.o THEN j ELSE 1 IN [k |-> z.k[q], v |-> z.v[q], t |-> z.t[q]]
Obj(ks, vals) == [o |-> TRUE, k |-> ks, v |-> vals, t |-> [j \in DOMAIN vals |-> IF ks[j] = "S" THEN vals[j] ELSE ""]]
Scal(k, v, t) == [o |-> FALSE, k |-> <<k>>, v |-> <<v>>, t |-> <<t>>]
BinO(ks, op, x, y) == Obj(ks, [j \in DOMAIN ks |-> IF ks[j] = "S" THEN BinV(op, Leaf(x, j), Leaf(y, j)) ELSE Conv(ks[j], BinV(op, Leaf(x, j), Leaf(y, j)))])
UnO(ks, f, x) == Obj(ks, [j \in DOMAIN ks |-> IF ks[j] = "S" THEN UnS(f, x.v[j]) ELSE Conv(ks[j], UnN(f, x.v[j]))])

Push(ks, vars, st, t) ==
    LET n == Len(st) IN
    CASE t[1] = "v" -> Append(st, Obj(ks, vars[t[2]]))
      [] t[1] = "s" -> Append(st, IF t[5] = "sym" THEN Scal("S", t[4], t[4]) ELSE Scal(IF t[5] = "int" THEN "i" ELSE "r", <<t[2], t[3]>>, t[4]))
      [] t[1] = "a" -> Append(st, Scal(ks[t[3]], vars[t[2]][t[3]], IF ks[t[3]] = "S" THEN vars[t[2]][t[3]] ELSE ""))
      [] t[1] = "b" -> Append(SubSeq(st, 1, n - 2), BinO(ks, t[2], st[n - 1], st[n]))
      [] t[1] = "u" -> Append(SubSeq(st, 1, n - 1), UnO(ks, t[2], st[n]))
Eval(ks, vars, toks) == FoldLeft(LAMBDA st, t : Push(ks, vars, st, t), <<>>, toks)[1]

Aggregate(op, v) == FoldLeft(LAMBDA a, x : CASE op = "sum" -> BinN("+", a, x) [] op = "max" -> (IF LessN(a, x) THEN x ELSE a) [] op = "min" -> (IF LessN(x, a) THEN x ELSE a),
                             v[1], Tail(v))

\* the result of a statement: the value shown and the variables afterwards
Exec(ks, vars, r) ==
    LET e == Eval(ks, vars, r.toks) IN
    CASE r.st = "set" -> [res |-> e.v, vars |-> [vars EXCEPT ![r.dst] = e.v]]
      [] r.st = "cmp" -> LET x == BinO(ks, r.op, Obj(ks, vars[r.dst]), e).v IN [res |-> x, vars |-> [vars EXCEPT ![r.dst] = x]]
      [] r.st = "agg" -> [res |-> <<Aggregate(r.op, e.v)>>, vars |-> vars]
      [] r.st = "poke" -> [res |-> r.val, vars |-> [vars EXCEPT ![r.dst] = r.val]]
=============================================================================
