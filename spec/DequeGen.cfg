SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Caps = {1, 2, 3}
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort
ACTION_CONSTRAINT Emit
