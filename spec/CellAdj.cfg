SPECIFICATION Spec
CONSTANTS Cells = {0,1,2}
 Elems = {0,1,2}
VIEW View
INVARIANTS TypeOK Distinct SwapNeutral OtherInvolution NextRecorded FillOrder
CHECK_DEADLOCK FALSE
