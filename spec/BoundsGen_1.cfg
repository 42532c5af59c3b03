SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "box"
  Shapes <- B1
  Has = {"elem","last","resize","reserve","range"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
