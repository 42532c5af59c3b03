SPECIFICATION Spec
VIEW View
CONSTRAINT Depth
INVARIANTS Inv Returns
PROPERTIES Keeps
ACTION_CONSTRAINT Emit
