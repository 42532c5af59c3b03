SPECIFICATION Spec
CONSTANTS
  K = 1
  NSlots = 3
POSTCONDITION Done
