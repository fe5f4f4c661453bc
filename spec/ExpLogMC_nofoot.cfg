SPECIFICATION Spec
CONSTANTS Weak = "nofoot"
 Depth = 6
INVARIANT Documents
CHECK_DEADLOCK FALSE
