SPECIFICATION Spec
CONSTANTS Weak = "none"
 Depth = 24
 Objs = {1, 2}
 Kinds = {0, 1, 2, 3, 4, 5}
 Files = {1, 2}
INVARIANTS InOrder Saved Emitted
CHECK_DEADLOCK FALSE
