SPECIFICATION TraceSpec
CONSTANT Weak = "none"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
