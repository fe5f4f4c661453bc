SPECIFICATION Spec
CONSTANTS Weak = "none"
 Depth = 14
 Alone = FALSE
INVARIANTS ReadBack Boundary Emitted
CHECK_DEADLOCK FALSE
