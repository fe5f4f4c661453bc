SPECIFICATION Spec
CONSTANTS Weak = "none"
 Depth = 7
INVARIANT Documents
CHECK_DEADLOCK FALSE
