SPECIFICATION Spec
CONSTANTS Weak = "none"
 Deep = FALSE
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
