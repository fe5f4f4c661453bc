SPECIFICATION Spec
CONSTANTS MaxCells = 6 MaxPieces = 3 Check = TRUE
INVARIANT Prefix
INVARIANT Complete
INVARIANT Emit
