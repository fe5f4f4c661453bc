SPECIFICATION Spec
CONSTANTS MaxIndex = 14
 MaxArgs = 40
 MaxStep = 6
 Weak = "no"
INVARIANTS Agrees InOrder NeverBelow EachOnce Emit
CHECK_DEADLOCK FALSE
