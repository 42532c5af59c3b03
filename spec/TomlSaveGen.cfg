SPECIFICATION Spec
CONSTANTS
  Wide = FALSE
INVARIANTS Returns Fine
ACTION_CONSTRAINT Emit
