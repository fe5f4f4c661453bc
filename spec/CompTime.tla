------------------------------ MODULE CompTime ------------------------------
(* Iteration at compile time (U02): the loop over a range of indices and the  *)
(* macros over a list of arguments, as a machine that visits one position     *)
(* after another, and the closed form of what it visits.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS MaxIndex, MaxArgs, MaxStep, Weak
Steps == (-MaxStep..MaxStep) \ {0}

\* A program: k (kind), from, to, by (loop), n (number of arguments of a macro)
Loop(a, b, s) == [k |-> "for", from |-> a, to |-> b, by |-> s, n |-> 0]
Macro(k, n) == [k |-> k, from |-> 0, to |-> 0, by |-> 0, n |-> n]
Up(p) == p.from < p.to
Inside(p, x) == IF Up(p) THEN x < p.to ELSE x > p.to
\* the number of visited indices: the range divided by the step, rounded up
Trips(p) == IF p.from = p.to THEN 0 ELSE IF Up(p) THEN (p.to - p.from + p.by - 1) \div p.by ELSE (p.from - p.to - p.by - 1) \div (-p.by)
\* indices are unsigned: no step may lead below zero
WellFormed(p) == p.k = "for" => \/ p.from = p.to /\ p.by # 0
                                \/ Up(p) /\ p.by > 0
                                \/ ~Up(p) /\ p.by < 0 /\ p.from + Trips(p) * p.by >= 0
Visits(p) ==
    CASE p.k = "for" -> [j \in 1..Trips(p) |-> <<p.from + (j - 1) * p.by>>]
      [] p.k = "each" -> [j \in 1..p.n |-> <<j>>]
      [] p.k = "even" -> [j \in 1..(p.n \div 2) |-> <<2 * j>>]
      [] p.k = "odd" -> [j \in 1..((p.n + 1) \div 2) |-> <<2 * j - 1>>]
      [] p.k = "pairs" -> [j \in 1..(p.n \div 2) |-> <<2 * j - 1, 2 * j>>]
      [] p.k = "triples" -> [j \in 1..(p.n \div 2) |-> <<0, 2 * j - 1, 2 * j>>]  \* 0: the constant argument

\* ---- the machine ----------------------------------------------------------------------------
VARIABLES prog, rest, idx, out, done
cvars == <<prog, rest, idx, out, done>>
Programs ==
    {p \in {Loop(a, b, s) : a \in 0..MaxIndex, b \in 0..MaxIndex, s \in Steps} : WellFormed(p)}
    \cup {Macro("each", n) : n \in 1..MaxArgs}
    \cup {Macro(k, n) : k \in {"even", "pairs", "triples"}, n \in {x \in 1..MaxArgs : x % 2 = 0}}
    \cup {Macro("odd", n) : n \in {x \in 1..(MaxArgs - 1) : x % 2 = 1}}
Init == /\ prog \in Programs /\ idx = prog.from /\ out = <<>> /\ done = FALSE
        /\ rest = [j \in 1..(prog.n + IF prog.k = "odd" THEN 1 ELSE 0) |-> IF prog.k = "odd" THEN j - 1 ELSE j]
LoopStep ==
    /\ prog.k = "for" /\ ~done
    /\ IF Inside(prog, idx) \/ (Weak = "closed" /\ idx = prog.to /\ Up(prog)) THEN out' = Append(out, <<idx>>) /\ idx' = idx + prog.by /\ done' = FALSE
       ELSE done' = TRUE /\ UNCHANGED <<out, idx>>
    /\ UNCHANGED <<prog, rest>>
\* a macro takes its first (two) arguments and goes on with the others
MacroStep ==
    /\ prog.k # "for" /\ ~done
    /\ IF rest = <<>> THEN done' = TRUE /\ UNCHANGED <<rest, out>>
       ELSE LET m == IF prog.k = "each" THEN 1 ELSE 2 IN
            /\ rest' = SubSeq(rest, m + 1, Len(rest)) /\ done' = FALSE
            /\ out' = LET v == CASE prog.k = "each" -> <<rest[1]>>
                                 [] prog.k \in {"even", "odd"} -> <<rest[IF Weak = "first" THEN 1 ELSE 2]>>
                                 [] prog.k = "pairs" -> <<rest[1], rest[2]>>
                                 [] prog.k = "triples" -> <<0, rest[1], rest[2]>>
                      IN Append(out, v)
    /\ UNCHANGED <<prog, idx>>
Next == LoopStep \/ MacroStep
Spec == Init /\ [][Next]_cvars

\* the odd positions come out through the even ones of the list behind an empty argument
Agrees == done => out = Visits(prog)
InOrder == \A a, b \in DOMAIN out : a < b => IF prog.k = "for" /\ ~Up(prog) THEN out[a][1] > out[b][1] ELSE out[a][Len(out[a])] < out[b][Len(out[b])]
NeverBelow == prog.k = "for" => (idx >= 0 /\ \A j \in DOMAIN out : Inside(prog, out[j][1]))
EachOnce == (done /\ prog.k \in {"each", "pairs", "triples"}) => \A x \in 1..prog.n : Cardinality({j \in DOMAIN out : \E q \in DOMAIN out[j] : out[j][q] = x}) = 1
Emit == done => PrintT(ToJson(prog))
=============================================================================
