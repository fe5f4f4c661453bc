----------------------------- MODULE ExpLogGen -----------------------------
(* Histories of logging: variables change, loggers are created, used, closed. *)
EXTENDS ExpLog, Json, IOUtils
CONSTANTS Depth, Ls, Fs, Sites, Full
Fam == JsonDeserialize(IOEnv.FAMILY)
VARIABLES f, s, hist
Rec(op, a, b, c) == [op |-> op, a |-> a, b |-> b, c |-> c]
Init == f \in DOMAIN Fam /\ s = Fresh /\ hist = <<>>
Put == Full /\ \E k \in DOMAIN Fam[f].types : \E c \in 1..Fam[f].types[k].vals : hist' = Append(hist, Rec("p", k, c, 0)) /\ UNCHANGED s
Create == \E L \in Ls, d \in Fs : (d > 3 => d = Default(L)) /\ d \notin {s.log[K].open : K \in Loggers \ {L}} /\ s' = Created(s, L, d) /\ hist' = Append(hist, Rec("create", L, d, 0))
Close == \E L \in Ls : s' = Closed(s, L) /\ hist' = Append(hist, Rec("close", L, 0, 0))
Log == \E L \in Ls, j \in DOMAIN Fam[f].sites, h \in 1..3 :
    /\ j \in Sites \/ Full
    /\ (L \in {2, 4} \/ ~Full) => h = 1
    /\ s' = (IF h = 3 THEN s ELSE Logged(s, L, [line |-> "", file |-> "", args |-> <<>>])) /\ hist' = Append(hist, Rec("log", L, j, h))
Console == Full /\ \E L \in 5..8, j \in DOMAIN Fam[f].sites, h \in 1..3 : (L > 6 => h = 1) /\ hist' = Append(hist, Rec("log", L, j, h)) /\ UNCHANGED s
Option == Full /\ \E a \in 1..6, b \in {0, 1} : hist' = Append(hist, Rec("opt", a, b, 0)) /\ UNCHANGED s
Next == Len(hist) < Depth /\ (Put \/ Create \/ Close \/ Log \/ Console \/ Option) /\ UNCHANGED f
Spec == Init /\ [][Next]_<<f, s, hist>>
Emitted == Len(hist) = Depth => PrintT(ToJson([f |-> f, h |-> hist]))
=============================================================================
