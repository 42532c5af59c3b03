SPECIFICATION Spec
CONSTANTS
  M2 = 2
  Every = 11
INVARIANTS Laws
ACTION_CONSTRAINT Emit
