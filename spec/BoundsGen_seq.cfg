SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "seq"
  Shapes <- Q
  Has = {"first","last","pop"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
