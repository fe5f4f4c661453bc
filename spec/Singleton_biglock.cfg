SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Classes = {1, 2}
 MaxReq = 2
 Design = "biglock"
INVARIANTS AsExpected NeverStuck
CHECK_DEADLOCK FALSE
VIEW NoHist
