SPECIFICATION Spec
CONSTANTS MaxIndex = 7
 MaxArgs = 40
 MaxStep = 3
 Weak = "no"
INVARIANTS Agrees InOrder NeverBelow EachOnce Emit
CHECK_DEADLOCK FALSE
