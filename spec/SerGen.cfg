SPECIFICATION Spec
CONSTANTS Weak = "none"
 Depth = 2
 Alone = TRUE
INVARIANTS ReadBack Boundary Emitted
CHECK_DEADLOCK FALSE
