SPECIFICATION Spec
CONSTANTS
  M2 = 3
  Every = 2
INVARIANTS Laws
ACTION_CONSTRAINT Emit
