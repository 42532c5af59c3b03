SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Rank = 2
  MaxN = 2
  MaxCap = 9
  HasVal = TRUE
  HasFill = FALSE
  Als = {}
  Slim = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort Overlap
ACTION_CONSTRAINT Emit
