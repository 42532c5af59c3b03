SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Kind = "info"
  MaxRec = 2
VIEW View
INVARIANT Inv
PROPERTIES Discipline Abort Frame
ACTION_CONSTRAINT Emit
