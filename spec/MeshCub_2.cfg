SPECIFICATION Spec
CONSTANTS Dim = 2
 N1 = 3
 N2 = 2
 N3 = 1
 N4 = 1
 MaxCells = 4
INVARIANT Design
CHECK_DEADLOCK FALSE
