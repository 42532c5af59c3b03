SPECIFICATION Spec
CONSTANT W = 6
INVARIANT Tests
CHECK_DEADLOCK FALSE
