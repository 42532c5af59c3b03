SPECIFICATION Spec
CONSTANTS
  MaxDim = 2
  Chars = {0, 10, 32, 39, 40, 41, 44, 48, 49, 57, 60, 62, 84, 255}
INVARIANTS RoundTrip Truncation Damage Data
