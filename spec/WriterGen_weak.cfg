SPECIFICATION Spec
CONSTANTS Depth = 4
 FpmaToo = FALSE
 KeyHasTypes = FALSE
INVARIANT Same
CHECK_DEADLOCK FALSE
