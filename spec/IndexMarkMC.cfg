SPECIFICATION Spec
CONSTANTS LB = 2
 N = 3
 D = {3,4,5,6}
INVARIANT Inv
CHECK_DEADLOCK FALSE
