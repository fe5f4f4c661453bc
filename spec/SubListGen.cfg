SPECIFICATION Spec
CONSTANTS Caps = {0, 1, 2, 3}
 Depth = 5
INVARIANTS Bounded Ordered Kept Refused Shown
CHECK_DEADLOCK FALSE
