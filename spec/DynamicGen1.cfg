SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  MaxNodes = 4
  Leaves = {"str", "arr", "map", "marr"}
  Wide = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Frame Assigned Conserved Abort
ACTION_CONSTRAINT Emit
