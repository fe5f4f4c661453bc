SPECIFICATION Spec
CONSTANTS Lays = {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J"}
 Depth = 3
 Meshes = {1, 2, 3}
 Weak = FALSE
VIEW View
INVARIANTS SizesFollow Survive Apart OneEntry CopyEqual Shown
CHECK_DEADLOCK FALSE
