SPECIFICATION Spec
CONSTANTS
  K = 3
  NSlots = 3
POSTCONDITION Done
