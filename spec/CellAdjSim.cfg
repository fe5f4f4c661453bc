SPECIFICATION Spec
CONSTANTS Cells = {0,1,2,3,4}
 Elems = {0,1,2,3}
 Depth = 30
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
