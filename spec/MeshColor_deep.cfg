SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Proper Bounded PaletteOK
CHECK_DEADLOCK FALSE
