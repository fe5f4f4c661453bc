----------------------------- MODULE CellAdjGen -----------------------------
(* One implementation test per transition of CellAdj: shortest path + call.  *)
EXTENDS CellAdj, TLC, Json
CONSTANT Depth     \* 0: print every transition; n: print walks of n calls
Emit == IF Depth = 0 \/ Len(hist') = Depth THEN PrintT(ToJson(hist')) ELSE TRUE
=============================================================================
