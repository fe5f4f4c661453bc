SPECIFICATION Spec
CONSTANTS Depth = 14
 Alone = FALSE
INVARIANT Emitted
CHECK_DEADLOCK FALSE
