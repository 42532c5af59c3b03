SPECIFICATION Spec
CONSTANTS
  NSlots = 3
POSTCONDITION Done
