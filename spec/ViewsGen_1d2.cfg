SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  N0 = 2
  N1 = 9
  HasSubView = TRUE
  HasSubEdit = TRUE
  HasLineView = FALSE
  HasLineEdit = FALSE
  LineDim = 1
  HasViewSub = TRUE
  HasEditView = TRUE
  Deep = TRUE
VIEW View
INVARIANT Inv
PROPERTIES Frame ReadOnly Inside2
ACTION_CONSTRAINT Emit
