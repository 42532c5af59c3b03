SPECIFICATION Spec
CONSTANTS
  Max = 3
  Sc = 2
INVARIANTS Laws
ACTION_CONSTRAINT Emit
