SPECIFICATION Spec
CONSTANTS
  G = 3
  MaxN = 5
INVARIANT Facts
