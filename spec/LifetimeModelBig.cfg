SPECIFICATION Spec
CONSTANTS
  Cons = {p, q, r}
  MaxLen = 4
  NBlocks = 4
  ES = 2
INVARIANTS Allowed1 Inside Exact
