SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "tri"
  Shapes <- Tri
  Has = {"elem"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
