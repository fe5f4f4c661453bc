SPECIFICATION Spec
CONSTANTS Coord = {1, 2, 3, 5}
 Dim = 4
 Num = 4
 Weak = FALSE
 Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
