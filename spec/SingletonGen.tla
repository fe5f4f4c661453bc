---------------------------- MODULE SingletonGen ----------------------------
(* The behaviours of Singleton as schedules: the order of the calls and of    *)
(* the ends of the constructors.                                              *)
EXTENDS Singleton, Json, Randomization
VARIABLE first      \* the constructors which fail at first
GInit == Init /\ first = fails
\* some of the programs of many threads
SInit == Start(RandomSubset(300, [Threads -> Programs])) /\ first = fails
GNext == Next /\ first' = first
SSpec == SInit /\ [][GNext]_<<vars, first>>
GSpec == GInit /\ [][GNext]_<<vars, first>>
\* some other thread has to call while a constructor runs
Busy == \E i, j \in DOMAIN hist : i < j /\ hist[i][1] = "call" /\ hist[j][1] = "call" /\ hist[i][2] # hist[j][2] /\ hist[i][3] = hist[j][3]
            /\ \A k \in 1..j : hist[k][1] = "end" => hist[k][3] # hist[i][3]
Emit == (Finished /\ Busy) => PrintT(ToJson([prog |-> [t \in 1..Cardinality(Threads) |-> prog[t]], needs |-> IF NeedsOne THEN 1 ELSE 0, fails |-> first[1], hist |-> hist]))
=============================================================================
