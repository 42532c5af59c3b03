SPECIFICATION Spec
CONSTANTS
  Every = 23
  Two = 2
INVARIANTS Laws
ACTION_CONSTRAINT Emit
