SPECIFICATION SSpec
CONSTANTS Threads = {1, 2, 3, 4}
 Classes = {1, 2, 3}
 MaxReq = 3
 Design = "once"
INVARIANTS AsExpected NeverStuck Emit
CHECK_DEADLOCK FALSE
