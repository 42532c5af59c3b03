SPECIFICATION Spec
CONSTANTS
  Code <- CodesB
  PMax = 4
  Reserves = {7}
  Erase = TRUE
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
