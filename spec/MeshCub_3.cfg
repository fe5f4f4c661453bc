SPECIFICATION Spec
CONSTANTS Dim = 3
 N1 = 2
 N2 = 2
 N3 = 1
 N4 = 1
 MaxCells = 3
INVARIANT Design
CHECK_DEADLOCK FALSE
