SPECIFICATION Spec
INVARIANTS Laws
ACTION_CONSTRAINT Emit
