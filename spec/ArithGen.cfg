SPECIFICATION Spec
CONSTANTS Depth = 1
 MaxToks = 3
 Cats = {"l", "c", "t", "m"}
 Full = FALSE
 Weak = FALSE
CONSTRAINT Bound
INVARIANTS Memberwise OperandsStay Emitted
CHECK_DEADLOCK FALSE
