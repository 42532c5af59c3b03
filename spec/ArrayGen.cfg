SPECIFICATION Spec
CONSTANTS
  K = 0
  Excl = {}
  NSlots = 2
  MaxLen = 3
  MaxCap = 4
  Vals = {1}
  Als = {}
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort Keep
ACTION_CONSTRAINT Emit
