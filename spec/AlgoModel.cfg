SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Vals = {1, 2, 3, 4}
INVARIANTS Around Found Permuted Order Shallow
PROPERTY Ends
CHECK_DEADLOCK FALSE
