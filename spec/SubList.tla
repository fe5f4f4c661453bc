------------------------------ MODULE SubList ------------------------------
(* A list of sub-elements with a capacity (0 = unlimited).                    *)
EXTENDS Integers, Sequences
\* result of a call: [q: the list, err: refused]
CanAdd(cap, q) == cap = 0 \/ Len(q) < cap
RemoveAt(q, k) == SubSeq(q, 1, k) \o SubSeq(q, k + 2, Len(q))          \* k is 0-based
Do(cap, q, op) ==
    CASE op[1] \in {"add", "push"} -> IF CanAdd(cap, q) THEN [q |-> Append(q, op[2]), err |-> 0] ELSE [q |-> q, err |-> 1]
      [] op[1] = "rem" -> IF op[2] < Len(q) THEN [q |-> RemoveAt(q, op[2]), err |-> 0] ELSE [q |-> q, err |-> 1]
      [] op[1] = "fill" -> LET n == IF cap = 0 THEN op[2] ELSE IF op[2] < cap - Len(q) THEN op[2] ELSE cap - Len(q) IN   \* op[2] appends, up to the first refused
                          [q |-> q \o [k \in 1..n |-> k - 1], err |-> IF n < op[2] THEN 1 ELSE 0]
      [] op[1] = "new" -> [q |-> <<>>, err |-> 0]
      [] OTHER -> [q |-> q, err |-> 0]
=============================================================================
