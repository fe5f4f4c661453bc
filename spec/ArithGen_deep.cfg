SPECIFICATION Spec
CONSTANTS Depth = 1
 MaxToks = 4
 Cats = {"l", "t"}
 Full = FALSE
 Weak = FALSE
CONSTRAINT Bound
INVARIANTS Memberwise OperandsStay Emitted
CHECK_DEADLOCK FALSE
