SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "upper"
  Shapes <- Tri
  Has = {"elem"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
