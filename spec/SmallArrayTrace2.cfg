SPECIFICATION Spec
CONSTANTS
  K = 2
  NSlots = 3
POSTCONDITION Done
