SPECIFICATION Spec
CONSTANTS Coord = {2, 3, 5}
 Dim = 3
 Num = 3
 Weak = FALSE
 Emit = TRUE
INVARIANTS Perpendicular Volumes Norms Spans Emitted
CHECK_DEADLOCK FALSE
