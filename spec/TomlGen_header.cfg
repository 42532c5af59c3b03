SPECIFICATION Spec
CONSTANTS
  Voc = "header"
  MaxLen = 5
VIEW View
INVARIANTS Layout Bounds Values
ACTION_CONSTRAINT Emit
