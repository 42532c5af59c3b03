SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Kind = "band"
  Shapes <- Bands
  MaxI = 4
  Lists = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort OneElement
ACTION_CONSTRAINT Emit
