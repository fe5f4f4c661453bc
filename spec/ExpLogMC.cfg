SPECIFICATION Spec
CONSTANTS Weak = "none"
 Depth = 5
INVARIANT Documents
CHECK_DEADLOCK FALSE
