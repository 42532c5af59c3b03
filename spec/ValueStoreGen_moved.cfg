SPECIFICATION Spec
CONSTANTS
  NSlots = 2
  Codes = {0, 1}
  Depth = 1
  Left = "moved"
VIEW View
PROPERTIES Frame Conserve
ACTION_CONSTRAINT Emit
