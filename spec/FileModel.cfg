SPECIFICATION Spec
CONSTANTS
  MaxLen = 9
  MaxBuf = 6
  MaxAsk = 10
INVARIANTS Given Shape
