SPECIFICATION Spec
POSTCONDITION Done
