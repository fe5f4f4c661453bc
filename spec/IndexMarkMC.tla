----------------------------- MODULE IndexMarkMC -----------------------------
EXTENDS IndexMark
CONSTANTS N, D
VARIABLES x, d
Init == d \in D /\ x \in [1..N -> 0..(Pow(LB) - 1)] /\ IsValue(x, d)
Next == UNCHANGED <<x, d>>
Spec == Init /\ [][Next]_<<x, d>>
Small == ~IsMarked(x, d)
Inv == /\ IsMarked(Mark(x, d), d) /\ IsValue(Mark(x, d), d)
       /\ ~IsMarked(Extract(x, d), d)
       /\ Small => Extract(Mark(x, d), d) = x /\ Extract(x, d) = x
       /\ ~Small => Mark(Extract(x, d), d) = x
       /\ IsInvalid(x, d) => IsMarked(x, d)
       /\ Small => ~IsInvalid(x, d)
       /\ \A y \in [1..N -> 0..(Pow(LB) - 1)] : (IsValue(y, d) /\ ~IsMarked(y, d) /\ Small /\ Mark(x, d) = Mark(y, d)) => x = y
=============================================================================
