SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  N0 = 3
  N1 = 2
  HasSubView = TRUE
  HasSubEdit = FALSE
  HasLineView = TRUE
  HasLineEdit = FALSE
  LineDim = 2
  HasViewSub = FALSE
  HasEditView = TRUE
  Deep = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Frame ReadOnly Inside2
ACTION_CONSTRAINT Emit
