SPECIFICATION Spec
CONSTANTS MaxMembers = 1
 MaxArgs = 1
 Types = {"void", "int"}
 Weak = "noclass"
INVARIANTS Grows ConstIsLess Keeps Stays 
CHECK_DEADLOCK FALSE
