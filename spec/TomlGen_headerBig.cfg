SPECIFICATION Spec
CONSTANTS
  Voc = "header"
  MaxLen = 7
VIEW View
INVARIANTS Layout Bounds Values
ACTION_CONSTRAINT Emit
