SPECIFICATION Spec
CONSTANTS Weak = "first"
 Depth = 6
INVARIANT Documents
CHECK_DEADLOCK FALSE
