SPECIFICATION Spec
CONSTANT NSlots = 3
POSTCONDITION Done
