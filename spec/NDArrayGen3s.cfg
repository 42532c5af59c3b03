SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Rank = 3
  MaxN = 2
  MaxCap = 9
  HasVal = FALSE
  HasFill = FALSE
  Als = {}
  Slim = TRUE
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort Overlap
ACTION_CONSTRAINT Emit
