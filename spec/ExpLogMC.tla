----------------------------- MODULE ExpLogMC -----------------------------
(* The writing of log documents piece by piece (head, entries, separators,    *)
(* foot) with the state the loggers keep: after any history every closed file *)
(* is a well-formed document that records its calls.                          *)
EXTENDS ExpLog
CONSTANTS Weak, Depth
VARIABLES s, pieces, first, grp, n
vars == <<s, pieces, first, grp, n>>
Top == [p |-> "head"]
Foot == [p |-> "foot"]
Sep == [p |-> "sep"]
\* the machine has loggers 1 and 3 (with and without separators) and the files 1 and their own
Ls == {1, 3}
Fs == {1, 2}
Init == s = Fresh /\ pieces = [f \in Files |-> <<>>] /\ first = [L \in Ls |-> TRUE] /\ grp = [L \in Ls |-> 0] /\ n = 0
Foots(p, L) == IF s.log[L].open = 0 THEN p ELSE [p EXCEPT ![s.log[L].open] = Append(@, Foot)]
NewDoc(p, L, f) == LET q == IF Weak = "nofoot" THEN p ELSE Foots(p, L) IN [q EXCEPT ![f] = (IF Weak = "append" THEN @ ELSE <<>>) \o <<Top>>]
Create(L, f) ==
    /\ f \notin {s.log[K].open : K \in Ls \ {L}}
    /\ s' = Created(s, L, f) /\ pieces' = NewDoc(pieces, L, f)
    /\ first' = [first EXCEPT ![L] = IF Weak = "first" THEN @ ELSE TRUE] /\ UNCHANGED grp
Close(L) == s' = Closed(s, L) /\ pieces' = Foots(pieces, L) /\ UNCHANGED <<first, grp>>
Log(L, m) ==
    LET f == IF s.log[L].open = 0 THEN Default(L) ELSE s.log[L].open
        p == IF s.log[L].open = 0 THEN NewDoc(pieces, L, f) ELSE pieces
        fw == IF s.log[L].open = 0 /\ Weak # "first" THEN TRUE ELSE first[L]
        ent(j) == [p |-> "entry", g |-> grp[L] + (IF Weak = "group" THEN j ELSE 0), line |-> n, file |-> 0, expr |-> j, tok |-> n + j]
        add(a, j) == (IF L = 1 /\ (j > 1 \/ ~fw) THEN Append(a, Sep) ELSE a) \o <<ent(j)>>
    IN /\ s' = Logged(s, L, [line |-> n, file |-> 0, args |-> [j \in 1..m |-> [expr |-> j, tok |-> n + j]]])
       /\ pieces' = [p EXCEPT ![f] = FoldLeft(add, @, [j \in 1..m |-> j])]
       /\ first' = [first EXCEPT ![L] = FALSE]
       /\ grp' = [grp EXCEPT ![L] = @ + 1]
Next == n < Depth /\ n' = n + 1 /\ \E L \in Ls : Close(L) \/ (\E f \in Fs : Create(L, f)) \/ (\E m \in 1..2 : Log(L, m))
Spec == Init /\ [][Next]_vars
Entries(p) == SelectSeq(p, LAMBDA x : x.p = "entry")
WellFormed(p, kind) ==
    /\ Len(p) >= 2 /\ p[1] = Top /\ p[Len(p)] = Foot
    /\ \A j \in 2..Len(p) - 1 : p[j].p \in {"entry", "sep"}
    /\ kind = "json" => \A j \in 2..Len(p) - 1 : p[j].p = (IF j % 2 = 0 THEN "entry" ELSE "sep")
    /\ kind = "json" => Len(p) = 2 \/ Len(p) % 2 = 1
    /\ kind = "html" => \A j \in 2..Len(p) - 1 : p[j].p = "entry"
Documents == \A f \in Files \ Opened(s) : s.disk[f].kind # "none" =>
    WellFormed(pieces[f], s.disk[f].kind) /\ Records(Entries(pieces[f]), s.disk[f].calls)
=============================================================================
