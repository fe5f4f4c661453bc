SPECIFICATION Spec
CONSTANTS MaxCells = 4 MaxPieces = 3 Check = TRUE
INVARIANT Prefix
INVARIANT Complete
INVARIANT Emit
