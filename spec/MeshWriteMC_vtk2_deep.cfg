SPECIFICATION Spec2
CONSTANTS Kind = "vtk2"
 MaxCells = 4
 NX = 2
 NY = 1
 Rots = {0}
INVARIANT DesignW
CHECK_DEADLOCK FALSE
