SPECIFICATION Spec
CONSTANTS
  Code <- CodesA
  PMax = 4
  Reserves = {}
  Erase = FALSE
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
