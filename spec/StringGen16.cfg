SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  K = 16
  Lens = {0, 1, 10, 11, 12}
  Sizes = {0, 1, 10, 11, 12}
  Reserved = {5, 11, 12, 30}
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort
ACTION_CONSTRAINT Emit
