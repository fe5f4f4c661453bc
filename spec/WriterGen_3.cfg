SPECIFICATION Spec
CONSTANTS Depth = 4
 FpmaToo = TRUE
 KeyHasTypes = TRUE
INVARIANT Same
INVARIANT Out
CHECK_DEADLOCK FALSE
