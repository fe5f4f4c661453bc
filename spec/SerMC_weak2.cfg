SPECIFICATION Spec
CONSTANTS Weak = "noclear"
 Deep = FALSE
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
