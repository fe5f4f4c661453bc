SPECIFICATION Spec
CONSTANTS Weak = "none"
 Deep = FALSE
INVARIANTS Apart Whole
CHECK_DEADLOCK FALSE
