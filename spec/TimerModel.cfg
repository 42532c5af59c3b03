SPECIFICATION Spec
VIEW View
CONSTRAINT Small
INVARIANTS Told
PROPERTIES Forward
ACTION_CONSTRAINT Emit
