SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "box"
  Shapes <- B3
  Has = {"elem","dim","room","capacity","stride","resize","reserve"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
