SPECIFICATION Spec
CONSTANTS
  K = 0
  Excl = {}
  NSlots = 2
  MaxLen = 2
  MaxCap = 3
  Vals = {1}
  Als = {}
VIEW FullView
INVARIANT Inv
PROPERTIES Frame Abort Keep
