SPECIFICATION Spec
CONSTANTS Depth = 8
 Dims = {1, 2, 3, 4}
 KindSet = {"r", "i"}
 Weak = 0
 Small = FALSE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
