SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Kind = "set"
  U = 3
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort OneKey
ACTION_CONSTRAINT Emit
