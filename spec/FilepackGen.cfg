SPECIFICATION Spec
CONSTANTS
  Wide = FALSE
INVARIANTS Returns
ACTION_CONSTRAINT Emit
