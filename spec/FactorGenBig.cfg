SPECIFICATION Spec
CONSTANTS
  Every = 1
  Two = 3
INVARIANTS Laws
ACTION_CONSTRAINT Emit
