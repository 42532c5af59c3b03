SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  MaxNodes = 2
  Leaves = {"int", "str", "arr", "map", "marr", "a2f64"}
  Wide = TRUE
VIEW View
INVARIANT Inv
PROPERTIES Frame Assigned Conserved Abort
ACTION_CONSTRAINT Emit
