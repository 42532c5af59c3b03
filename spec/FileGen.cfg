SPECIFICATION Spec
CONSTANTS
  Top = 3
VIEW View
CONSTRAINT Small
INVARIANT Inv
PROPERTIES Keeps Aborts
ACTION_CONSTRAINT Emit
