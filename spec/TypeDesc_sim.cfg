SPECIFICATION Spec
CONSTANTS MaxMembers = 8
 MaxArgs = 6
 Types = {"void", "int", "const std::string&", "double*", "C", "C&&", "bool", "const int", "void(*)(int)", "const C&"}
 Weak = "no"
INVARIANTS Grows ConstIsLess Keeps Stays Emit
CHECK_DEADLOCK FALSE
