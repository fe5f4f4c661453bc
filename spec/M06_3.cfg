SPECIFICATION Spec
CONSTANTS Dim = 3
 MaxLen = 4
 Ops = {"load0","load1","load2","clear","bnd","bndc"}
INVARIANTS LastLoadWins SetupOK
CHECK_DEADLOCK FALSE
