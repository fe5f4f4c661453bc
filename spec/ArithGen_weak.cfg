SPECIFICATION Spec
CONSTANTS Depth = 1
 MaxToks = 3
 Cats = {"l", "c", "t", "m"}
 Full = FALSE
 Weak = TRUE
CONSTRAINT Bound
INVARIANTS Memberwise OperandsStay
CHECK_DEADLOCK FALSE
