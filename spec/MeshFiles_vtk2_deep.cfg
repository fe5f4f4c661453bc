SPECIFICATION Spec
CONSTANTS Kind = "vtk2"
 MaxCells = 4
 NX = 2
 NY = 1
 Rots = {0,1}
INVARIANT Design
CHECK_DEADLOCK FALSE
