SPECIFICATION Spec
CONSTANTS Dim = 3
 MaxLen = 5
 Ops = {"load0","load1","load2","clear","bnd","bndc","mark","edit","missing","bad"}
INVARIANTS LastLoadWins SetupOK EmitOK
CHECK_DEADLOCK FALSE
