SPECIFICATION Spec
CONSTANTS Weak = "none"
 Deep = TRUE
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
