SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Kind = "box"
  Shapes <- Box4
  MaxI = 2
  Lists = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort OneElement
ACTION_CONSTRAINT Emit
