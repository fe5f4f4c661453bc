SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Proper Bounded PaletteOK
CHECK_DEADLOCK FALSE
