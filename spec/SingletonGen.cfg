SPECIFICATION GSpec
CONSTANTS Threads = {1, 2}
 Classes = {1, 2}
 MaxReq = 2
 Design = "once"
INVARIANTS AsExpected NeverStuck Emit
CHECK_DEADLOCK FALSE
