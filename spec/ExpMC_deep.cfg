SPECIFICATION Spec
CONSTANTS Weak = "none"
 Deep = TRUE
INVARIANTS Apart Whole
CHECK_DEADLOCK FALSE
