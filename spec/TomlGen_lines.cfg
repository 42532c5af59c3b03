SPECIFICATION Spec
CONSTANTS
  Voc = "lines"
  MaxLen = 3
VIEW View
INVARIANTS Layout Bounds Values
ACTION_CONSTRAINT Emit
