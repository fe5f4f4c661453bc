SPECIFICATION Spec
CONSTANTS MaxIndex = 2
 MaxArgs = 40
 MaxStep = 2
 Weak = "first"
INVARIANTS Agrees InOrder NeverBelow EachOnce 
CHECK_DEADLOCK FALSE
