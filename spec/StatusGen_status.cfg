SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Kind = "status"
  MaxRec = 1
VIEW View
INVARIANT Inv
PROPERTIES Discipline Abort Frame
ACTION_CONSTRAINT Emit
