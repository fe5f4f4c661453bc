----------------------------- MODULE SerLogGen -----------------------------
EXTENDS SerLog, TLC, Json
CONSTANTS Depth, Objs, Kinds, Files
VARIABLES st, seen, hist
\* seen: what was read since reading last started at the beginning; read items are told apart by their number
vars == <<st, seen, hist>>
Init == st = Start /\ seen = <<<<>>, <<>>>> /\ hist = <<>>
c == Len(hist) + 1
Rec(op, a, g, ks) == [op |-> op, a |-> a, g |-> g, ks |-> ks]
WriteSets == {<<<<k, c>>>> : k \in Kinds} \cup {<<<<k, c>>, <<l, c + 50>>>> : k \in {0, 1}, l \in Kinds \cap {1, 2}} \cup {<<<<1, c>>, <<0, c + 50>>, <<2, c + 90>>>>}
Act(a) ==
    \/ \E ks \in WriteSets : st' = Write(st, a, ks) /\ hist' = Append(hist, Rec("w", a, 0, ks)) /\ seen' = seen
    \/ \E n \in {1, 2} :
        /\ CanRead(st, a, n)
        /\ hist' = Append(hist, Rec("r", a, n, ReadItems(st, a, n)))
        /\ seen' = [seen EXCEPT ![a] = (IF Len(@) < Len(st.s[a].log) THEN @ ELSE <<>>) \o ReadItems(st, a, n)]
        /\ st' = Read(st, a, n)
    \/ st' = Rewind(st, a) /\ seen' = [seen EXCEPT ![a] = <<>>] /\ hist' = Append(hist, Rec("b", a, 0, <<>>))
    \/ st' = Clear(st, a) /\ seen' = [seen EXCEPT ![a] = <<>>] /\ hist' = Append(hist, Rec("c", a, 0, <<>>))
    \/ \E g \in Files : \/ st' = Save(st, a, g) /\ seen' = seen /\ hist' = Append(hist, Rec("s", a, g, <<>>))
                        \/ st.f[g].is /\ st' = Load(st, a, g) /\ seen' = [seen EXCEPT ![a] = <<>>] /\ hist' = Append(hist, Rec("l", a, g, <<>>))
    \* saving fails: a directory, a path that does not exist, a full device
    \/ \E g \in {1, 2, 3} : (g = 3 => st.s[a].log # <<>>) /\ st' = st /\ seen' = seen /\ hist' = Append(hist, Rec("x", a, g, <<>>))
    \/ Objs = {1, 2} /\ \E g \in {1, 2, 3} : st' = Copy(st, a) /\ seen' = [seen EXCEPT ![a] = seen[3 - a]] /\ hist' = Append(hist, Rec("=", a, g, <<>>))
    \/ Objs = {1, 2} /\ a = 1 /\ st' = Swap(st) /\ seen' = <<seen[2], seen[1]>> /\ hist' = Append(hist, Rec("~", a, 0, <<>>))
Next == Len(hist) < Depth /\ \E a \in Objs : Act(a)
Spec == Init /\ [][Next]_vars
\* the items read since the beginning are the first ones of the log, in order, however calls interleave
InOrder == \A a \in Objs : seen[a] = SubSeq(st.s[a].log, 1, Len(seen[a])) /\ Len(seen[a]) = st.s[a].rd
\* a file holds all of the log it was saved from
last == hist[Len(hist)]
Saved == (hist # <<>> /\ last.op = "s") => st.f[last.g].log = st.s[last.a].log
\* every generated history ends with a look at what the next read of each serializer gives
Probe(a) == IF st.s[a].log = <<>> THEN <<>> ELSE << Rec("r", a, 1, ReadItems(st, a, 1)) >>
Emitted == Len(hist) = Depth => PrintT(ToJson(hist \o Probe(1) \o Probe(2)))
=============================================================================
