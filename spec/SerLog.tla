------------------------------ MODULE SerLog ------------------------------
(* The serializer as a log with a reading position: log the items written,    *)
(* rd the number of them read since the last rewind.  Two serializers and two *)
(* files.  An item is anything to the operators below.                        *)
EXTENDS Integers, Sequences
CONSTANT Weak
Nothing == [log |-> <<>>, rd |-> 0]
NoFile == [is |-> FALSE, log |-> <<>>]
Start == [s |-> <<Nothing, Nothing>>, f |-> <<NoFile, NoFile>>]
Write(st, a, items) == [st EXCEPT !.s[a].log = @ \o items, !.s[a].rd = IF Weak = "restart" THEN 0 ELSE @]
\* when everything was read, reading starts again at the beginning
Pos(st, a) == IF st.s[a].rd < Len(st.s[a].log) THEN st.s[a].rd ELSE 0
CanRead(st, a, n) == Len(st.s[a].log) > 0 /\ Pos(st, a) + n <= Len(st.s[a].log)
ReadItems(st, a, n) == SubSeq(st.s[a].log, Pos(st, a) + 1, Pos(st, a) + n)
Read(st, a, n) == [st EXCEPT !.s[a].rd = Pos(st, a) + n]
Rewind(st, a) == [st EXCEPT !.s[a].rd = 0]
Clear(st, a) == [st EXCEPT !.s[a] = Nothing]
Save(st, a, g) == [st EXCEPT !.f[g] = [is |-> TRUE, log |-> IF Weak = "unread" THEN SubSeq(st.s[a].log, st.s[a].rd + 1, Len(st.s[a].log)) ELSE st.s[a].log]]
Load(st, a, g) == [st EXCEPT !.s[a] = [log |-> st.f[g].log, rd |-> IF Weak = "norewind" THEN @.rd ELSE 0]]
Copy(st, a) == [st EXCEPT !.s[a] = st.s[3 - a]]
Swap(st) == [st EXCEPT !.s = <<st.s[2], st.s[1]>>]
=============================================================================
