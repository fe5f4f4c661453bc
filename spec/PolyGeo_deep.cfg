SPECIFICATION Spec
CONSTANTS
  G = 3
  MaxN = 7
INVARIANT Facts
