SPECIFICATION Spec
CONSTANTS
  MaxDim = 1
  Chars = {32, 39, 44, 50, 62}
INVARIANTS RoundTrip Truncation Damage Data
