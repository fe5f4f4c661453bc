SPECIFICATION TraceSpec
CONSTANTS MaxMembers = 0
 MaxArgs = 0
 Types = {"int"}
 Weak = "no"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
