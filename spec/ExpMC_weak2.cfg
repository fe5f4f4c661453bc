SPECIFICATION Spec
CONSTANTS Weak = "shallow"
 Deep = FALSE
INVARIANTS Apart Whole
CHECK_DEADLOCK FALSE
