SPECIFICATION Spec
CONSTANTS
  Cons = {p, q}
  MaxLen = 3
  NBlocks = 3
  ES = 2
INVARIANTS Allowed1 Inside Exact
