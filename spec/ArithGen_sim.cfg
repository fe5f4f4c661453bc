SPECIFICATION Spec
CONSTANTS Depth = 3
 MaxToks = 7
 Cats = {"l", "c", "t", "m"}
 Full = TRUE
 Weak = FALSE
CONSTRAINT Bound
INVARIANTS Memberwise OperandsStay Emitted
CHECK_DEADLOCK FALSE
