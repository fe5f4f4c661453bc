SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Classes = {1, 2}
 MaxReq = 2
 Design = "once"
INVARIANTS AsExpected NeverStuck
CHECK_DEADLOCK FALSE
VIEW NoHist
