SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Kind = "upper"
  Shapes <- Tri
  MaxI = 3
  Lists = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort OneElement
ACTION_CONSTRAINT Emit
