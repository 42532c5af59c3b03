SPECIFICATION Spec
CONSTANTS
  Voc = "value"
  MaxLen = 6
VIEW View
INVARIANTS Layout Bounds Values
ACTION_CONSTRAINT Emit
