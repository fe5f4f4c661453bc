SPECIFICATION Spec
CONSTANTS Depth = 2
 Weak = TRUE
VIEW VIEWOF
INVARIANTS WrittenRead OthersStay PathCell
CHECK_DEADLOCK FALSE
