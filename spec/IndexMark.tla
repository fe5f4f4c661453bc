------------------------------ MODULE IndexMark ------------------------------
(* Marked indices (M06). A non-negative index of a type with d value bits is  *)
(* a sequence of limbs of LB bits, least significant first. The most          *)
(* significant value bit marks boundary indices; all ones is invalid.         *)
EXTENDS Integers, Sequences
CONSTANT LB
Pow(n) == 2 ^ n
Limb(d) == ((d - 1) \div LB) + 1            \* the limb of the mark
Bit(d) == Pow((d - 1) % LB)
IsMarked(x, d) == (x[Limb(d)] \div Bit(d)) % 2 = 1
Mark(x, d) == IF IsMarked(x, d) THEN x ELSE [x EXCEPT ![Limb(d)] = @ + Bit(d)]
Extract(x, d) == IF IsMarked(x, d) THEN [x EXCEPT ![Limb(d)] = @ - Bit(d)] ELSE x
Invalid(n, d) == [k \in 1..n |-> IF k < Limb(d) THEN Pow(LB) - 1 ELSE IF k = Limb(d) THEN 2 * Bit(d) - 1 ELSE 0]
Zero(n) == [k \in 1..n |-> 0]
IsInvalid(x, d) == x = Invalid(Len(x), d)
IsValue(x, d) == \A k \in DOMAIN x : x[k] >= 0 /\ x[k] <= Invalid(Len(x), d)[k]
=============================================================================
