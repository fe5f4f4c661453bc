SPECIFICATION Spec
CONSTANTS Weak = "none"
 Depth = 3
 Objs = {1, 2}
 Kinds = {0}
 Files = {1}
INVARIANTS InOrder Saved Emitted
CHECK_DEADLOCK FALSE
