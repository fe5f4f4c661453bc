SPECIFICATION Spec2
CONSTANTS Kind = "vtk3"
 MaxCells = 3
 NX = 2
 NY = 1
 Rots = {0}
INVARIANT DesignW
CHECK_DEADLOCK FALSE
