SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "slots"
  Shapes <- Sl
  Has = {"elem","noslot"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
