SPECIFICATION Spec
CONSTANTS Coord = {2, 3, 5}
 Dim = 3
 Num = 3
 Weak = TRUE
 Emit = FALSE
INVARIANTS Perpendicular  Emitted
CHECK_DEADLOCK FALSE
