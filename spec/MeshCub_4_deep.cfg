SPECIFICATION Spec
CONSTANTS Dim = 4
 N1 = 2
 N2 = 2
 N3 = 1
 N4 = 1
 MaxCells = 4
INVARIANT Design
CHECK_DEADLOCK FALSE
