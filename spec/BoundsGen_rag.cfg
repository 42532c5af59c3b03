SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  Kind = "rag"
  Shapes <- Rags
  Has = {"elem","dimr"}
VIEW View
INVARIANT Inv
PROPERTIES Frame Single Pure
ACTION_CONSTRAINT Emit
