SPECIFICATION Spec
CONSTANTS Depth = 4
 Ls = {2, 4}
 Fs = {1, 2}
 Sites = {2, 3}
 Full = FALSE
INVARIANT Emitted
CHECK_DEADLOCK FALSE
