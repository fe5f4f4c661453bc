SPECIFICATION Spec
CONSTANTS Weak = "append"
 Depth = 6
INVARIANT Documents
CHECK_DEADLOCK FALSE
