SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Kind = "tri"
  Shapes <- Tri4
  MaxI = 3
  Lists = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort OneElement
ACTION_CONSTRAINT Emit
