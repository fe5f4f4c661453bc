SPECIFICATION Spec
CONSTANTS Dim = 2
 N1 = 3
 N2 = 3
 N3 = 1
 N4 = 1
 MaxCells = 9
INVARIANT Design
CHECK_DEADLOCK FALSE
