SPECIFICATION Spec
CONSTANTS Depth = 5
 FpmaToo = TRUE
 KeyHasTypes = TRUE
INVARIANT Same
INVARIANT Out
CHECK_DEADLOCK FALSE
