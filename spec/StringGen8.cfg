SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  K = 8
  Lens = {0, 1, 21, 22, 23}
  Sizes = {0, 1, 21, 22, 23}
  Reserved = {10, 22, 23, 40}
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort
ACTION_CONSTRAINT Emit
