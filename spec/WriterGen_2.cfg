SPECIFICATION Spec
CONSTANTS Depth = 5
 FpmaToo = FALSE
 KeyHasTypes = TRUE
INVARIANT Same
INVARIANT Out
CHECK_DEADLOCK FALSE
