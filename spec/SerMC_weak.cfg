SPECIFICATION Spec
CONSTANTS Weak = "nolength"
 Deep = FALSE
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
