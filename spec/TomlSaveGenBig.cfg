SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
INVARIANTS Returns Fine
ACTION_CONSTRAINT Emit
