SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
INVARIANTS Returns
ACTION_CONSTRAINT Emit
