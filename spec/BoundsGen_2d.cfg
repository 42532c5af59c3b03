SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "box"
  Shapes <- B2
  Has = {"elem","dim","room","capacity","stride","resize","reserve","line1","lv1","block"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
