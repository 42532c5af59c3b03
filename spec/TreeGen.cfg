SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  N = 2
  MaxDepth = 2
  MaxNodes = 4
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort Grow
ACTION_CONSTRAINT Emit
