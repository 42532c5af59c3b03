SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Kind = "box"
  Shapes <- Box1
  MaxI = 3
  Lists = TRUE
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort OneElement
ACTION_CONSTRAINT Emit
