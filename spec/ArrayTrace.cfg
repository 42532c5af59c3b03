SPECIFICATION Spec
CONSTANTS
  K = 0
  NSlots = 3
POSTCONDITION Done
