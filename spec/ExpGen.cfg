SPECIFICATION Spec
CONSTANTS Depth = 2
 Alone = TRUE
INVARIANT Emitted
CHECK_DEADLOCK FALSE
