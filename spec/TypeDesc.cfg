SPECIFICATION Spec
CONSTANTS MaxMembers = 2
 MaxArgs = 2
 Types = {"void", "int", "const std::string&", "double*"}
 Weak = "no"
INVARIANTS Grows ConstIsLess Keeps Stays Emit
CHECK_DEADLOCK FALSE
