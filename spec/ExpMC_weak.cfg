SPECIFICATION Spec
CONSTANTS Weak = "nobracket"
 Deep = FALSE
INVARIANTS Apart Whole
CHECK_DEADLOCK FALSE
