SPECIFICATION Spec
CONSTANTS Weak = "none"
 Depth = 5
 Objs = {1, 2}
 Kinds = {0}
 Files = {1}
INVARIANTS InOrder Saved
CHECK_DEADLOCK FALSE
