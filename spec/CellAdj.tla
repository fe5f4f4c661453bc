------------------------------- MODULE CellAdj -------------------------------
(* The two-slot adjacency protocol of a face (M05).                           *)
(* State of a face: the cells on its left and right (None if free) and, per   *)
(* side, the next face in the boundary walk of that side's cell.              *)
EXTENDS Integers, Sequences

CONSTANTS Cells, Elems      \* sets of indices

None == -1
Throw == -9

Fresh == [l |-> None, r |-> None, nl |-> None, nr |-> None]

\* ---- the calls: each gives the state after the call and its answer ----------
SetCell(s, c) ==
    IF c = None THEN [s |-> s, res |-> 0]
    ELSE IF s.l = None THEN [s |-> [s EXCEPT !.l = c], res |-> 1]
    ELSE IF s.r = None THEN [s |-> [s EXCEPT !.r = c], res |-> 1]
    ELSE [s |-> s, res |-> 0]

SetLeft(s, c)  == [s |-> [s EXCEPT !.l = c], res |-> 1]
SetRight(s, c) == [s |-> [s EXCEPT !.r = c], res |-> 1]
SetNL(s, e)    == [s |-> [s EXCEPT !.nl = e], res |-> 1]
SetNR(s, e)    == [s |-> [s EXCEPT !.nr = e], res |-> 1]

Other(s, c) ==
    [s |-> s, res |-> IF c = None THEN Throw
                      ELSE IF c = s.r THEN s.l
                      ELSE IF c = s.l THEN s.r ELSE Throw]

\* claim a side for cell c: its own, else the free left one, else the free right one
SetNext(s, e, c) ==
    IF c = None THEN [s |-> s, res |-> 0]
    ELSE IF s.l = c THEN [s |-> [s EXCEPT !.nl = e], res |-> 1]
    ELSE IF s.r = c THEN [s |-> [s EXCEPT !.nr = e], res |-> 1]
    ELSE IF s.l = None THEN [s |-> [s EXCEPT !.l = c, !.nl = e], res |-> 1]
    ELSE IF s.r = None THEN [s |-> [s EXCEPT !.r = c, !.nr = e], res |-> 1]
    ELSE [s |-> s, res |-> 0]

NextOf(s, c) ==
    [s |-> s, res |-> IF c = None THEN Throw
                      ELSE IF c = s.r THEN s.nr
                      ELSE IF c = s.l THEN s.nl ELSE Throw]

Swap(s) == [s |-> [l |-> s.r, r |-> s.l, nl |-> s.nr, nr |-> s.nl], res |-> 1]
CellsOK(s) == [s |-> s, res |-> IF s.l # None /\ s.r # None THEN 1 ELSE 0]
New(l, r, nl, nr) == [s |-> [l |-> l, r |-> r, nl |-> nl, nr |-> nr], res |-> 1]

\* dispatch on a recorded call <<name, arguments...>>
Do(s, op) ==
    CASE op[1] = "new"      -> New(op[2], op[3], op[4], op[5])
      [] op[1] = "set"      -> SetCell(s, op[2])
      [] op[1] = "setL"     -> SetLeft(s, op[2])
      [] op[1] = "setR"     -> SetRight(s, op[2])
      [] op[1] = "setNL"    -> SetNL(s, op[2])
      [] op[1] = "setNR"    -> SetNR(s, op[2])
      [] op[1] = "other"    -> Other(s, op[2])
      [] op[1] = "setNext"  -> SetNext(s, op[2], op[3])
      [] op[1] = "next"     -> NextOf(s, op[2])
      [] op[1] = "swap"     -> Swap(s)
      [] op[1] = "ok"       -> CellsOK(s)

\* ---- admissible calls: a cell is never put on both sides of one face ---------
Admissible(s) ==
    {<<"set", c>> : c \in (Cells \ {s.l, s.r}) \cup {None}}
    \cup {<<"setL", c>> : c \in (Cells \ {s.r}) \cup {None}}
    \cup {<<"setR", c>> : c \in (Cells \ {s.l}) \cup {None}}
    \cup {<<"setNL", e>> : e \in Elems \cup {None}}
    \cup {<<"setNR", e>> : e \in Elems \cup {None}}
    \cup {<<"other", c>> : c \in Cells \cup {None}}
    \cup {<<"setNext", e, c>> : e \in Elems \cup {None}, c \in Cells \cup {None}}
    \cup {<<"next", c>> : c \in Cells \cup {None}}
    \cup {<<"swap">>, <<"ok">>}

VARIABLES s, hist
vars == <<s, hist>>
View == s          \* the history is not part of the state

Init == s = Fresh /\ hist = << <<"new", None, None, None, None>> >>
Call(op) == s' = Do(s, op).s /\ hist' = Append(hist, op)
Next == \E op \in Admissible(s) : Call(op)
Spec == Init /\ [][Next]_vars

\* ---- properties of the design -------------------------------------------------
TypeOK == /\ s.l \in Cells \cup {None} /\ s.r \in Cells \cup {None}
          /\ s.nl \in Elems \cup {None} /\ s.nr \in Elems \cup {None}
Distinct == s.l = s.r => s.l = None

AnswerOf(st, c) == <<Other(st, c).res, NextOf(st, c).res>>
\* swapping the sides changes no answer given per cell, and twice is the identity
SwapNeutral == LET t == Swap(s).s IN
    /\ \A c \in Cells \cup {None} : AnswerOf(t, c) = AnswerOf(s, c)
    /\ Swap(t).s = s
\* the other cell of the other cell is the cell itself
OtherInvolution == \A c \in Cells : LET o == Other(s, c).res IN
    (o # Throw /\ o # None) => Other(s, o).res = c
\* a recorded successor is the one answered, for that cell only
NextRecorded == \A c \in Cells, e \in Elems : LET x == SetNext(s, e, c) IN
    /\ x.res = 1 => NextOf(x.s, c).res = e
    /\ x.res = 0 => x.s = s
    /\ \A d \in Cells \ {c} : NextOf(s, d).res # Throw => NextOf(x.s, d).res = NextOf(s, d).res
    /\ (x.res = 0) <=> (s.l # None /\ s.r # None /\ c \notin {s.l, s.r})
\* set fills left before right
FillOrder == \A c \in Cells \ {s.l, s.r} : LET x == SetCell(s, c) IN
    /\ s.l = None => x.s.l = c /\ x.s.r = s.r
    /\ (s.l # None /\ s.r = None) => x.s.r = c /\ x.s.l = s.l
    /\ CellsOK(x.s).res = 1 \/ s.r = None
=============================================================================
