SPECIFICATION Spec
CONSTANTS Dim = 4
 N1 = 2
 N2 = 1
 N3 = 1
 N4 = 1
 MaxCells = 2
INVARIANT Design
CHECK_DEADLOCK FALSE
