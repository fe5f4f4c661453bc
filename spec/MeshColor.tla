----------------------------- MODULE MeshColor -----------------------------
(* The two colouring procedures as transition systems over an arbitrary       *)
(* conflict graph: greedy colouring element by element, then any number of    *)
(* random recolouring sweeps, each element moving to any colour of the        *)
(* palette that none of its neighbours has (or staying).                      *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANT N
E == 1..N
Edges == {p \in E \X E : p[1] < p[2]}
VARIABLES g,      \* the conflict graph (set of pairs)
          col,    \* colours, -1 = not yet
          pos,    \* next element of the sweep
          phase, palette
vars == <<g, col, pos, phase, palette>>
Nei(x) == {y \in E : <<x, y>> \in g \/ <<y, x>> \in g}
Least(S) == CHOOSE k \in 0..N : k \notin S /\ \A q \in 0..(k - 1) : q \in S
Used(x) == {col[y] : y \in Nei(x)} \ {-1}
Init == g \in SUBSET Edges /\ col = [x \in E |-> -1] /\ pos = 1 /\ phase = "greedy" /\ palette = 0
ColorNext == /\ phase = "greedy" /\ pos <= N
             /\ col' = [col EXCEPT ![pos] = Least(Used(pos))]
             /\ pos' = pos + 1
             /\ palette' = IF col'[pos] + 1 > palette THEN col'[pos] + 1 ELSE palette
             /\ UNCHANGED <<g, phase>>
Finish == phase = "greedy" /\ pos > N /\ phase' = "random" /\ pos' = 1 /\ UNCHANGED <<g, col, palette>>
Recolor == /\ phase = "random" /\ pos <= N
           /\ \E c \in ((0..(palette - 1)) \ Used(pos)) \cup {col[pos]} : col' = [col EXCEPT ![pos] = c]
           /\ pos' = pos + 1 /\ UNCHANGED <<g, phase, palette>>
Next == ColorNext \/ Finish \/ Recolor
Spec == Init /\ [][Next]_vars
Proper == \A p \in g : col[p[1]] = col[p[2]] => col[p[1]] = -1
Bounded == \A x \in E : col[x] < palette /\ col[x] <= (IF phase = "greedy" THEN Cardinality(Nei(x)) ELSE palette)
PaletteOK == phase = "random" => palette <= 1 + Cardinality({x \in E : Nei(x) # {}}) /\ palette >= 1
=============================================================================
