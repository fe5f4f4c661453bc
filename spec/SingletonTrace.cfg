SPECIFICATION TraceSpec
CONSTANTS Threads = {}
 Classes = {}
 MaxReq = 0
 Design = "once"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
