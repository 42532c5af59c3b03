SPECIFICATION Spec
CONSTANTS
  Code <- CodesC
  PMax = 5
  Reserves = {13}
  Erase = TRUE
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
