SPECIFICATION Spec
CONSTANTS Depth = 18
 Ls = {1, 2, 3, 4}
 Fs = {1, 2, 3, 4, 5, 6, 7}
 Sites = {1}
 Full = TRUE
INVARIANT Emitted
CHECK_DEADLOCK FALSE
