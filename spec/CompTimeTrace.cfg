SPECIFICATION TraceSpec
CONSTANTS MaxIndex = 0
 MaxArgs = 0
 MaxStep = 1
 Weak = "no"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
