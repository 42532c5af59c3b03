SPECIFICATION Spec
POSTCONDITION Done
CONSTANT AllowByNext = TRUE
