SPECIFICATION Spec
CONSTANTS Weak = "group"
 Depth = 6
INVARIANT Documents
CHECK_DEADLOCK FALSE
