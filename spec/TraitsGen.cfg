SPECIFICATION Spec
CONSTANTS Depth = 2
 Weak = FALSE
VIEW VIEWOF
INVARIANTS WrittenRead OthersStay PathCell Emitted
CHECK_DEADLOCK FALSE
