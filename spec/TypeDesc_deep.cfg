SPECIFICATION Spec
CONSTANTS MaxMembers = 3
 MaxArgs = 3
 Types = {"void", "int", "const std::string&", "double*", "C"}
 Weak = "no"
INVARIANTS Grows ConstIsLess Keeps Stays Emit
CHECK_DEADLOCK FALSE
