SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Kind = "maparray"
  U = 2
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort OneKey
ACTION_CONSTRAINT Emit
