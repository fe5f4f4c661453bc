SPECIFICATION TraceSpec
CONSTANTS Cells = {0}
 Elems = {0}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
