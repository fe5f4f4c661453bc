SPECIFICATION Spec
CONSTANTS Kind = "fpma"
 MaxCells = 3
 NX = 2
 NY = 1
 Rots = {0}
INVARIANT Design
CHECK_DEADLOCK FALSE
