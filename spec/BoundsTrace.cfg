SPECIFICATION Spec
CONSTANTS
  NSlots = 1
POSTCONDITION Done
