SPECIFICATION Spec
INVARIANT Inv
PROPERTY Props
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
