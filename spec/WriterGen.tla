----------------------------- MODULE WriterGen -----------------------------
(* Histories of a reused writer (M11): two meshes whose content changes, the  *)
(* cell types in use, two writers kept for both formats and one kept behind   *)
(* the pointer given to write(path). A writer remembers what it indexed and   *)
(* repeats the indexing when its key changes. Every history of Depth steps    *)
(* is printed to be replayed.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, FpmaToo, KeyHasTypes
Formats == IF FpmaToo THEN {"vtk", "fpma"} ELSE {"vtk"}
VARIABLES h,         \* the history
          content,   \* slot -> content (0, 1: the original ones; then numbered by the edits)
          types,     \* slot -> types in use (0, 1)
          edits,
          idx,       \* writer -> what it has indexed: <<content, types>>, <<>> if nothing
          pkind,     \* kind of the writer behind the pointer
          shown      \* <<written, what a fresh writer writes>>
vars == <<h, content, types, edits, idx, pkind, shown>>
Writers == {"vtk", "fpma", "ptr"}
Init == /\ h = <<>> /\ content = [k \in {0, 1} |-> k] /\ types = [k \in {0, 1} |-> 0] /\ edits = 0
        /\ idx = [w \in Writers |-> <<>>] /\ pkind = "none" /\ shown = <<<<>>, <<>>>>
Log(x) == h' = Append(h, x)
Edit(k) == /\ edits' = edits + 1 /\ content' = [content EXCEPT ![k] = 2 + edits] /\ Log(<<"E", k>>)
           /\ UNCHANGED <<types, idx, pkind, shown>>
Restore(k) == /\ content[k] # k /\ content' = [content EXCEPT ![k] = k] /\ Log(<<"R", k>>)
              /\ UNCHANGED <<types, edits, idx, pkind, shown>>
Retype(k) == /\ types' = [types EXCEPT ![k] = 1 - @] /\ Log(<<"T", k>>) /\ UNCHANGED <<content, edits, idx, pkind, shown>>
\* the general form is all fpma knows
Ty(k, f) == IF f = "fpma" THEN 9 ELSE types[k]
Reindex(k, f, old) == LET now == <<content[k], Ty(k, f)>> IN
    IF old = <<>> \/ old[1] # now[1] \/ (KeyHasTypes /\ old[2] # now[2]) THEN now ELSE old
Show(k, f, w, old) == LET new == Reindex(k, f, old) IN
    /\ idx' = [idx EXCEPT ![w] = new] /\ shown' = << <<f, new>>, <<f, <<content[k], Ty(k, f)>> >> >>
Write(k, f) == /\ Show(k, f, f, idx[f]) /\ Log(<<"W", k, f>>) /\ UNCHANGED <<content, types, edits, pkind>>
WritePtr(k, f) == /\ Show(k, f, "ptr", IF pkind = f THEN idx["ptr"] ELSE <<>>) /\ pkind' = f /\ Log(<<"P", k, f>>)
                  /\ UNCHANGED <<content, types, edits>>
Next == /\ Len(h) < Depth
        /\ \E k \in {0, 1} : \/ Edit(k) \/ Restore(k) \/ Retype(k)
                             \/ \E f \in Formats : Write(k, f) \/ WritePtr(k, f)
Spec == Init /\ [][Next]_vars
Same == shown[1] = shown[2]
IsW(x) == x[1] \in {"W", "P"}
\* worth replaying: a writer is used twice, the last step writes
Out == (Len(h) = Depth /\ IsW(h[Depth]) /\ \E k \in 1..(Depth - 1) : IsW(h[k]) /\ h[k][1] = h[Depth][1]) => PrintT(ToJson([h |-> h]))
=============================================================================
