SPECIFICATION Spec
CONSTANTS Weak = "norewind"
 Depth = 4
 Objs = {1}
 Kinds = {0}
 Files = {1}
INVARIANTS InOrder Saved
CHECK_DEADLOCK FALSE
