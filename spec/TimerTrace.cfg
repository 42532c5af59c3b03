SPECIFICATION Spec
POSTCONDITION Done
CONSTANT AllowByNext = FALSE
