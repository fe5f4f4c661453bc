------------------------------ MODULE ExpGen ------------------------------
(* Histories of changing and printing the variables of a family of types, one *)
(* stream and one standard output for all of them.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Depth, Alone
Fam == JsonDeserialize(IOEnv.FAMILY)
VARIABLES f, val, hist
Ty == Fam[f].types
Rec(op, k, w, how, c) == [op |-> op, k |-> k, w |-> w, how |-> how, c |-> c]
Init == f \in DOMAIN Fam /\ val = [k \in DOMAIN Fam[f].types |-> 0] /\ hist = <<>>
Put == \E k \in DOMAIN Ty : \E c \in 1..Ty[k].vals :
    /\ Alone => hist = <<>>
    /\ val' = [val EXCEPT ![k] = c] /\ hist' = Append(hist, Rec("p", k, 1, "", c)) /\ UNCHANGED f
\* into a stream of a derived type, a plain stream, the standard output; the attributes bound to the variable or given beside it
Export == \E k \in DOMAIN Ty, how \in {"derived", "stream", "stdout"}, c \in {1, 2} : \E w \in DOMAIN Ty[k].views :
    /\ val[k] > 0 /\ (c = 2 => w > 1)
    /\ hist' = Append(hist, Rec("x", k, w, how, c)) /\ UNCHANGED <<f, val>>
Next == Len(hist) < Depth /\ (Put \/ Export)
Spec == Init /\ [][Next]_<<f, val, hist>>
Emitted == (Len(hist) = Depth /\ hist[Depth].op = "x") => PrintT(ToJson([f |-> f, h |-> hist]))
=============================================================================
