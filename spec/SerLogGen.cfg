SPECIFICATION Spec
CONSTANTS Weak = "none"
 Depth = 4
 Objs = {1}
 Kinds = {0, 1}
 Files = {1}
INVARIANTS InOrder Saved Emitted
CHECK_DEADLOCK FALSE
