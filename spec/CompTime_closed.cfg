SPECIFICATION Spec
CONSTANTS MaxIndex = 4
 MaxArgs = 40
 MaxStep = 2
 Weak = "closed"
INVARIANTS Agrees InOrder NeverBelow EachOnce 
CHECK_DEADLOCK FALSE
