SPECIFICATION Spec
CONSTANTS
  NSlots = 1
  N0 = 3
  N1 = 2
  HasSubView = FALSE
  HasSubEdit = FALSE
  HasLineView = FALSE
  HasLineEdit = FALSE
  LineDim = 1
  HasViewSub = TRUE
  HasEditView = TRUE
  Deep = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Frame ReadOnly Inside2
ACTION_CONSTRAINT Emit
