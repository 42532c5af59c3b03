SPECIFICATION Spec
CONSTANTS
  Voc = "lines"
  MaxLen = 5
VIEW View
INVARIANTS Layout Bounds Values
ACTION_CONSTRAINT Emit
