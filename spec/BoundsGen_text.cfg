SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "text"
  Shapes <- Sl
  Has = {"elemro","rangero","insert","cut","fromend","asks"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
