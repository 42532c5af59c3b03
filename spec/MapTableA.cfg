SPECIFICATION Spec
CONSTANTS
  Code <- CodesA
  PMax = 4
  Reserves = {1, 4, 12}
  Erase = TRUE
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
