------------------------------ MODULE SerGen ------------------------------
(* Histories of writing and reading variables of a family of types.           *)
(* A family: types [views, vals]: the first view is the type with its default *)
(* attributes, the others have other attributes bound to its classes; vals    *)
(* are values to put into the variables; groups of variables written and read *)
(* by one call, <<type, variable>>.                                           *)
EXTENDS SerTypes, Json, IOUtils
CONSTANTS Depth, Alone
Fam == JsonDeserialize(IOEnv.FAMILY)
VARIABLES f, vars, tape, log, pos, rd, hist
all == <<f, vars, tape, log, pos, rd, hist>>
Ty == Fam[f].types
Rec(op, k, q, w, c, how) == [op |-> op, k |-> k, q |-> q, w |-> w, c |-> c, how |-> how]
Init ==
    /\ f \in DOMAIN Fam
    /\ vars = [k \in DOMAIN Fam[f].types |-> <<Fam[f].types[k].vals[1], Fam[f].types[k].vals[2]>>]
    /\ tape = <<>> /\ log = <<>> /\ pos = 1 /\ rd = 0 /\ hist = <<>>
Item(k, w, v, e) == [k |-> k, w |-> w, v |-> v, e |-> e]
Poke == \E k \in DOMAIN Ty, q \in {1, 2}, c \in DOMAIN Ty[1].vals :
    /\ ~Alone /\ c \in DOMAIN Ty[k].vals
    /\ vars' = [vars EXCEPT ![k][q] = Ty[k].vals[c]]
    /\ hist' = Append(hist, Rec("p", k, q, 1, c, ""))
    /\ UNCHANGED <<f, tape, log, pos, rd>>
Write == \E k \in DOMAIN Ty, q \in {1, 2}, how \in {"write", "<<", "const", "temp"} : \E w \in DOMAIN Ty[k].views :
    /\ Alone => log = <<>>
    /\ tape' = tape \o Encode(Ty[k].views[w], vars[k][q])
    /\ log' = Append(log, Item(k, w, vars[k][q], Len(tape') + 1))
    /\ hist' = Append(hist, Rec("w", k, q, w, 1, how))
    /\ UNCHANGED <<f, vars, pos, rd>>
Read == \E q \in {1, 2}, how \in {"read", ">>", "ret"} :
    /\ rd < Len(log)
    /\ LET it == log[rd + 1]
           t == Ty[it.k].views[it.w]
           d == Decode(t, tape, pos, IF how = "ret" THEN Blank(t) ELSE vars[it.k][q]) IN
       /\ how = "ret" => it.w = 1
       /\ vars' = [vars EXCEPT ![it.k][q] = d.v]
       /\ pos' = d.p
       /\ hist' = Append(hist, Rec("r", it.k, q, it.w, 1, how))
    /\ rd' = rd + 1 /\ UNCHANGED <<f, tape, log>>
\* static functions with a container of its own
Copy == \E k \in DOMAIN Ty, q \in {1, 2} : \E w \in DOMAIN Ty[k].views :
    /\ LET t == Ty[k].views[w] IN vars' = [vars EXCEPT ![k][3 - q] = Decode(t, Encode(t, vars[k][q]), 1, vars[k][3 - q]).v]
    /\ hist' = Append(hist, Rec("c", k, q, w, 1, ""))
    /\ UNCHANGED <<f, tape, log, pos, rd>>
WriteGroup == \E g \in DOMAIN Fam[f].groups :
    /\ ~Alone
    /\ LET G == Fam[f].groups[g]
           h(a, j) == LET v == vars[G[j][1]][G[j][2]]
                          tp == a.tape \o Encode(Ty[G[j][1]].views[1], v) IN [tape |-> tp, log |-> Append(a.log, Item(G[j][1], 1, v, Len(tp) + 1))]
           x == FoldLeft(h, [tape |-> tape, log |-> log], [j \in DOMAIN G |-> j]) IN
       tape' = x.tape /\ log' = x.log
    /\ hist' = Append(hist, Rec("wm", 1, 1, 1, g, ""))
    /\ UNCHANGED <<f, vars, pos, rd>>
ReadGroup == \E g \in DOMAIN Fam[f].groups :
    /\ ~Alone
    /\ LET G == Fam[f].groups[g]
           h(a, j) == LET d == Decode(Ty[G[j][1]].views[1], tape, a.p, a.v[G[j][1]][G[j][2]]) IN [v |-> [a.v EXCEPT ![G[j][1]][G[j][2]] = d.v], p |-> d.p] IN
       /\ rd + Len(G) <= Len(log)
       /\ \A j \in DOMAIN G : log[rd + j].k = G[j][1] /\ log[rd + j].w = 1
       /\ LET d == FoldLeft(h, [v |-> vars, p |-> pos], [j \in DOMAIN G |-> j]) IN vars' = d.v /\ pos' = d.p
       /\ rd' = rd + Len(G)
    /\ hist' = Append(hist, Rec("rm", 1, 1, 1, g, ""))
    /\ UNCHANGED <<f, tape, log>>
Next == Len(hist) < Depth /\ (Poke \/ Write \/ Read \/ Copy \/ WriteGroup \/ ReadGroup)
Spec == Init /\ [][Next]_all
last == hist[Len(hist)]
\* what was read is what was written, and nothing else was consumed
ReadBack == (hist # <<>> /\ last.op = "r") => Same(Ty[last.k].views[last.w], vars[last.k][last.q], log[rd].v)
Boundary == pos = IF rd = 0 THEN 1 ELSE log[rd].e
Emitted == (IF Alone THEN hist # <<>> /\ last.op \in {"r", "c"} /\ (last.op = "c" => Len(hist) = 1) ELSE Len(hist) = Depth) => PrintT(ToJson([f |-> f, h |-> hist]))
=============================================================================
