SPECIFICATION Spec
CONSTANTS Depth = 10
 Weak = FALSE
VIEW VIEWOF
INVARIANTS WrittenRead OthersStay PathCell Emitted
CHECK_DEADLOCK FALSE
