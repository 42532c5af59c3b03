SPECIFICATION Spec
CONSTANTS
  K = 2
  Excl = {"new_emp", "resize_val", "resize_emp", "resize_self", "fill", "inc"}
  NSlots = 2
  MaxLen = 4
  MaxCap = 6
  Vals = {1}
  Als = {}
VIEW View
INVARIANT Inv
PROPERTIES Frame Abort Keep
ACTION_CONSTRAINT Emit
