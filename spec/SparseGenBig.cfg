SPECIFICATION Spec
CONSTANTS
  N = 3
  Most0 = 4
INVARIANTS Laws
ACTION_CONSTRAINT Emit
