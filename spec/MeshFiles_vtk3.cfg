SPECIFICATION Spec
CONSTANTS Kind = "vtk3"
 MaxCells = 2
 NX = 2
 NY = 1
 Rots = {0,1}
INVARIANT Design
CHECK_DEADLOCK FALSE
