----------------------------- MODULE TraitsGen -----------------------------
(* Histories over the classes described in the file named by CLASSES; facts   *)
(* about reading and writing attributes.                                      *)
EXTENDS TraitsRW, TLC, Json, IOUtils
CONSTANTS Depth, Weak
Cls == JsonDeserialize(IOEnv.CLASSES)
VARIABLES c, s, hist, prev
vars == <<c, s, hist, prev>>
reg == Cls[c].reg
Start(n) == <<[k \in 1..n |-> 2 * k], [k \in 1..n |-> 3 * k]>>
Init == c \in DOMAIN Cls /\ s = Start(Cls[c].ncell) /\ hist = <<>> /\ prev = s
v0 == 5 * Len(hist) + 40
TS == {t \in {"D", "I", "A", "L"} : View(reg, t) # <<>>}
Vec(a) == [k \in 1..a.len |-> v0 + a.off + k]
Ops == UNION {UNION {{<<"set", 1, t, j, w, Vec(View(reg, t)[j])>> : w \in WriteWays(t, View(reg, t)[j])} : j \in DOMAIN View(reg, t)} : t \in TS}
       \cup {<<"set", 2, t, 1, 0, Vec(View(reg, t)[1])>> : t \in TS}
       \cup {<<"path", 1, j, k, w, v0>> : j \in {x \in DOMAIN View(reg, "A") : View(reg, "A")[x].len = 3 /\ View(reg, "A")[x].acc \in DirectKinds}, k \in {1, 2}, w \in {0, 1}}
       \cup {<<"poke", 1, k, v0>> : k \in {1, Cls[c].ncell}} \cup {<<"app", 1, t, 3>> : t \in TS} \cup {<<"copy", 2>>}
\* the weakened design: writing an attribute writes the one of the same number in the default list
Step(op) == IF Weak /\ op[1] = "set" /\ reg["D"] # <<>> /\ op[4] <= Len(reg["D"]) /\ reg["D"][op[4]].len = View(reg, op[3])[op[4]].len THEN Do(reg, s, [op EXCEPT ![3] = "D"]) ELSE Do(reg, s, op)
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : s' = Step(op) /\ hist' = Append(hist, op)
        /\ prev' = s /\ c' = c
Spec == Init /\ [][Next]_vars
lastop == IF hist = <<>> THEN <<"none", 1>> ELSE hist[Len(hist)]
VIEWOF == <<c, s, prev, IF hist = <<>> THEN <<>> ELSE lastop>>
\* what was written is read, whatever the attribute
WrittenRead == lastop[1] = "set" => Value(s[lastop[2]], View(reg, lastop[3])[lastop[4]]) = lastop[6]
\* the cells of other attributes and of the other object stay
OthersStay == lastop[1] = "set" => LET a == View(reg, lastop[3])[lastop[4]] IN
    /\ s[3 - lastop[2]] = prev[3 - lastop[2]]
    /\ \A k \in DOMAIN s[1] : (k < a.cell \/ k >= a.cell + a.len) => s[lastop[2]][k] = prev[lastop[2]][k]
\* a nested attribute is one cell of its outer attribute
PathCell == lastop[1] = "path" => LET a == View(reg, "A")[lastop[3]] IN
    \E k \in a.cell..(a.cell + 2) : s[lastop[2]] = [prev[lastop[2]] EXCEPT ![k] = lastop[6]] /\ s[3 - lastop[2]] = prev[3 - lastop[2]]
Emitted == hist = <<>> \/ (Depth > 4 /\ Len(hist) < Depth) \/ PrintT(ToJson([c |-> c, ops |-> hist]))
=============================================================================
