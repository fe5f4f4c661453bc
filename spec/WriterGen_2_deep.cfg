SPECIFICATION Spec
CONSTANTS Depth = 6
 FpmaToo = FALSE
 KeyHasTypes = TRUE
INVARIANT Same
INVARIANT Out
CHECK_DEADLOCK FALSE
