SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
