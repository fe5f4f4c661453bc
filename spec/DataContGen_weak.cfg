SPECIFICATION Spec
CONSTANTS Lays = {"C", "F"}
 Depth = 2
 Meshes = {1, 2, 3}
 Weak = TRUE
VIEW View
INVARIANTS SizesFollow Survive Apart OneEntry CopyEqual
CHECK_DEADLOCK FALSE
