SPECIFICATION Spec
CONSTANTS
  Voc = "value"
  MaxLen = 4
VIEW View
INVARIANTS Layout Bounds Values
ACTION_CONSTRAINT Emit
