SPECIFICATION Spec
CONSTANTS Depth = 2
 Dims = {1, 2, 3}
 KindSet = {"r", "i"}
 Weak = 0
 Small = TRUE
VIEW VIEWOF
INVARIANTS InitZeros AddSub Symmetric Cauchy Crossed OwnScalar Emitted
CHECK_DEADLOCK FALSE
