SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  N = 3
  MaxDepth = 2
  MaxNodes = 6
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort Grow
ACTION_CONSTRAINT Emit
