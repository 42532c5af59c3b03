SPECIFICATION Spec
CONSTANTS
  Max = 2
  Sc = 1
INVARIANTS Laws
ACTION_CONSTRAINT Emit
