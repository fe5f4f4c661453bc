----------------------------- MODULE SubListGen -----------------------------
(* All histories of appends and removals on lists of every small capacity.    *)
EXTENDS SubList, TLC, Json, FiniteSets
CONSTANTS Caps, Depth
VARIABLES cap, q, hist, last
vars == <<cap, q, hist, last>>
Init == cap \in Caps /\ q = <<>> /\ hist = <<>> /\ last = 0
Ops == {<<"add", 10 + Len(hist)>>, <<"push", 10 + Len(hist)>>} \cup {<<"rem", k>> : k \in 0..(IF Len(q) < 3 THEN Len(q) + 1 ELSE Len(q))}
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : LET x == Do(cap, q, op) IN
              /\ q' = x.q /\ last' = x.err /\ hist' = Append(hist, op)
        /\ cap' = cap
Spec == Init /\ [][Next]_vars
Bounded == cap = 0 \/ Len(q) <= cap
\* what remains are distinct appended values in their original order
Ordered == \A a, b \in DOMAIN q : a < b => q[a] < q[b]
Kept == \A a \in DOMAIN q : \E k \in DOMAIN hist : hist[k][1] \in {"add", "push"} /\ hist[k][2] = q[a]
Refused == last = 1 => Len(hist) > 0
Shown == Len(hist) < Depth \/ PrintT(ToJson([cap |-> cap, ops |-> hist]))
=============================================================================
