SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "box"
  Shapes <- B2
  Has = {"elem","dim","room","capacity","stride","resize","reserve","line2","lv2"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
