SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "band"
  Shapes <- Bands
  Has = {"elem"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
