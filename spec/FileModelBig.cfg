SPECIFICATION Spec
CONSTANTS
  MaxLen = 40
  MaxBuf = 20
  MaxAsk = 42
INVARIANTS Given Shape
