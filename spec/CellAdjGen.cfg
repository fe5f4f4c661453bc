SPECIFICATION Spec
CONSTANTS Cells = {0,1,2}
 Elems = {0,1}
 Depth = 0
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
