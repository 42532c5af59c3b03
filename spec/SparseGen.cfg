SPECIFICATION Spec
CONSTANTS
  N = 3
  Most0 = 3
INVARIANTS Laws
ACTION_CONSTRAINT Emit
