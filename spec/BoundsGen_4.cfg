SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "box"
  Shapes <- B4
  Has = {"elem","dim","room","capacity","resize","reserve"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
